"""Equivalence of two label/jump sequences as flow graphs: label names, placement and redundant jumps do not matter,
the order of operations, the conditions and where each edge leads do."""
import re

NEG = {"jneq": ("jeq", True), "jgeq": ("jlt", True), "jgt": ("jleq", True), "jeq": ("jeq", False),
       "jlt": ("jlt", False), "jleq": ("jleq", False)}


class Flow:
    def __init__(self, lines, entry_labels=()):
        self.items = []
        self.at = {}
        for l in lines:
            if re.match(r"^\S+:$", l) and not l.startswith("<"):
                self.at[l[:-1]] = len(self.items)
                self.items.append(("label",))
                continue
            if l.startswith("jmp @"):
                self.items.append(("jmp", l[5:]))
                continue
            m = re.match(r"^(j\w+) @([^,]+), (.*)$", l)
            if m and m.group(1) in NEG:
                op, sw = NEG[m.group(1)]
                self.items.append(("cond", op + " " + m.group(3), m.group(2), sw))
                continue
            if l.startswith("<"):
                body = l[1:-1].split(" ")
                self.items.append(("child", body[0], [x.split("=", 1) for x in body[1:] if "=" in x]))
                self.at["end(%s)" % body[0]] = len(self.items)
                continue
            self.items.append(("op", l))

    def go(self, label):
        if label in self.at:
            return self.pc(self.at[label])
        return ("extern", label)

    def pc(self, i, seen=()):
        while True:
            if i in seen:
                return ("spin",)
            seen = seen + (i,)
            if i >= len(self.items):
                return ("end",)
            it = self.items[i]
            if it[0] == "label":
                i += 1
            elif it[0] == "jmp":
                if it[1] not in self.at:
                    return ("extern", it[1])
                i = self.at[it[1]]
            else:
                return i

    def obs(self, p):
        """-> (observation, [successors])"""
        if isinstance(p, tuple):
            return p, []
        it = self.items[p]
        if it[0] == "op":
            return ("op", it[1]), [self.pc(p + 1)]
        if it[0] == "cond":
            t, f = self.go(it[2]), self.pc(p + 1)
            if it[3]:
                t, f = f, t
            return ("cond", it[1]), [t, f]
        return ("child", it[1], tuple(k for k, _ in it[2])), [self.pc(p + 1)] + [self.go(v) for _, v in it[2]]


def differs(got, want, roots=()):
    """None if the flow graphs agree (from the entry and from each pair of labels in roots), else a reason"""
    a, b = Flow(got), Flow(want)
    work = [(a.pc(0), b.pc(0), "entry")]
    for x, y in roots:
        work.append((a.go(x), b.go(y), "label %s" % y))
    seen = set()
    while work:
        p, q, via = work.pop()
        if (p, q) in seen:
            continue
        seen.add((p, q))
        o1, s1 = a.obs(p)
        o2, s2 = b.obs(q)
        if o1 != o2:
            return "after %s: '%s' where '%s' is required" % (via, " ".join(map(str, o1)), " ".join(map(str, o2)))
        for i, (x, y) in enumerate(zip(s1, s2)):
            work.append((x, y, "%s%s" % (" ".join(map(str, o1)), " (edge %d)" % i if len(s1) > 1 else "")))
    return None

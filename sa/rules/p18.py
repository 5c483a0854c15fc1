"""P18: register allocation keeps every value until its last use."""
import itertools
from rules.back_common import *
from rules.p19 import one
from rules.p20 import C
from report import pmap

META = {"level": "other", "explanation":
        "Abstract interpretation of block splitting, liveness, allocation and generation on intermediate functions enumerated by shape: every "
        "interleaving of definitions and last uses of up to four (thorough: five) values, pressure up to all eight registers and beyond, "
        "branches of every kind forwards and backwards with values live into either side, joins written on both sides, values redefined, "
        "numbers used out of order, gaps, pointers, calls and divisions under pressure, several functions in a row. The final text is given "
        "the architecture's meaning over symbolic contents and must make every use see the value the intermediate code gives it.",
        "assumptions": ["values that are live at the same time are those of one function at most; longer functions repeat these shapes"]}

JUMPS = ("JEQ", "JNEQ", "JLT", "JGT", "JLEQ", "JGEQ")


def interleavings(n):
    """definitions in order; each value used once, after its definition"""
    def rec(defined, live, acc):
        if len(defined) == n and not live:
            yield list(acc)
            return
        if len(defined) < n:
            k = len(defined)
            acc.append(("d", k))
            yield from rec(defined + [k], live | {k}, acc)
            acc.pop()
        for k in sorted(live):
            acc.append(("u", k))
            yield from rec(defined, live - {k}, acc)
            acc.pop()
    return rec([], frozenset(), [])


def scenarios(tier):
    th = tier == "thorough"
    S = []

    def add(key, c, name="f"):
        S.append((key, c.finish() if hasattr(c, "finish") else c, name))
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        for seq in interleavings(n):
            c = C()
            rs = {}
            for what, k in seq:
                if what == "d":
                    rs[k] = c.load()
                else:
                    c.keep(rs[k])
            add("ORDER " + " ".join(w + str(k) for w, k in seq), c)
    # two uses, operations on what is live, dead definitions
    for n in range(1, 9):
        for dead in (0, 1, 2):
            c = C()
            rs = [c.load() for _ in range(n)]
            for r in rs:
                c.keep(r)
            for _ in range(dead):
                c.load()
            for r in reversed(rs):
                c.keep(r)
            add("PRESSURE %d values used twice, %d dead" % (n, dead), c) if n + (1 if dead else 0) <= 8 else None
        c = C()
        rs = [c.load() for _ in range(n)]
        while len(rs) > 1:
            a, b = rs.pop(), rs.pop()
            d = c.new(8)
            c.code.append(I("ADD", d, b, a))
            rs.append(d)
        c.keep(rs[0])
        add("PRESSURE %d values folded from the right" % n, c)
        c = C()
        rs = [c.load() for _ in range(n)]
        while len(rs) > 1:
            a, b = rs.pop(0), rs.pop(0)
            d = c.new(8)
            c.code.append(I("SUB", d, a, b))
            rs.append(d)
        c.keep(rs[0])
        add("PRESSURE %d values folded from the left" % n, c)
    for n in (9, 10, 12):
        c = C()
        rs = [c.load() for _ in range(n)]
        for r in rs:
            c.keep(r)
        add("OVER %d values at a time" % n, c)
    c = C()
    for i in range(12):
        c.keep(c.load())
    add("REUSE twelve values one after another", c)
    # branches: values live into one side only, both sides, across, around
    for j in JUMPS + ("JMP",):
        cond = (lambda c, l: c.code.append(I(j, lab_(l), *( (c.load(4), num(4, 5)) if j != "JMP" else ()))))
        for live in (1, 2, 6):
            for side in ("then", "else", "both", "after"):
                for pressure in (0, 1):
                    c = C()
                    ks = [c.load() for _ in range(live)]
                    cond(c, ".A")
                    fill = [c.load() for _ in range(7 - live if pressure else 1)]
                    for r in fill:
                        c.keep(r)
                    if side in ("then", "both"):
                        for k in ks:
                            c.keep(k)
                    c.code.append(I("JMP", lab_(".B")))
                    c.code.append(L(".A"))
                    fill = [c.load() for _ in range(7 - live if pressure else 1)]
                    for r in fill:
                        c.keep(r)
                    if side in ("else", "both"):
                        for k in ks:
                            c.keep(k)
                    c.code.append(L(".B"))
                    fill = [c.load() for _ in range(2)]
                    for r in fill:
                        c.keep(r)
                    if side == "after":
                        for k in ks:
                            c.keep(k)
                    add("BRANCH %s, %d live into %s, pressure %d" % (j, live, side, pressure), c)
        # a register written on both sides, before and after other numbers
        for early in (0, 1):
            for live in (0, 3):
                c = C()
                ks = [c.load() for _ in range(live)]
                cond(c, ".A")
                d = c.new(8) if early else None
                s = c.load()
                d = d or c.new(8)
                c.code.append(I("LOAD", d, s))
                c.code.append(I("JMP", lab_(".B")))
                c.code.append(L(".A"))
                s = c.load()
                t = c.load()
                c.keep(s)
                c.code.append(I("LOAD", d, t))
                c.code.append(L(".B"))
                e = c.load()
                c.keep(e)
                c.keep(d)
                for k in ks:
                    c.keep(k)
                add("JOIN %s number taken %s, %d kept" % (j, "early" if early else "late", live), c)
        # a loop: values used at its top are live at its bottom
        if j != "JMP":
            for live in (1, 3):
                for top in (0, 1):
                    c = C()
                    ks = [c.load() for _ in range(live)]
                    c.code.append(L(".A"))
                    if top:
                        for k in ks:
                            c.keep(k)
                    fill = [c.load() for _ in range(3)]
                    for r in fill:
                        c.keep(r)
                    cond(c, ".A")
                    for r in [c.load() for _ in range(2)]:
                        c.keep(r)
                    if not top:
                        for k in ks:
                            c.keep(k)
                    add("LOOP %s, %d live, used at the %s" % (j, live, "top" if top else "end"), c)
            c = C()
            k = c.load()
            c.code.append(L(".A"))
            cond(c, ".C")
            c.keep(k)
            for r in [c.load() for _ in range(3)]:
                c.keep(r)
            c.code.append(I("JMP", lab_(".A")))
            c.code.append(L(".C"))
            add("LOOP tested at the top by %s" % j, c)
            c = C()
            k, m = c.load(), c.load()
            c.code.append(L(".A"))
            c.keep(k)
            c.code.append(L(".D"))
            c.keep(c.load())
            cond(c, ".D")
            c.keep(m)
            r = c.load()
            c.keep(r)
            cond(c, ".A")
            add("LOOP two deep by %s" % j, c)
    # the value a loop needs at its top is used there in every operand position
    for use in ("dst pointer", "src pointer", "argument", "callee", "compared", "stored"):
        for live in (0, 2):
            c = C()
            ks = [c.load() for _ in range(live)]
            k = c.load(8, 1) if "pointer" in use or use == "callee" else c.load(4)
            c.code.append(L(".A"))
            if use == "dst pointer":
                c.code.append(I("STORE", ptr(k[3]), num(4, 1)))
            elif use == "src pointer":
                v = c.new(4)
                c.code.append(I("LOAD", v, ptr(k[3])))
                c.keep(v)
            elif use == "argument":
                c.call([("k", k), ("v", 4)], None, None)
            elif use == "callee":
                c.call([("v", 4)], ptr(k[3]), None)
            elif use == "compared":
                v = c.load(4)
                c.code.append(I("JLT", lab_(".Z"), v, k))
                c.keep(c.load())
                c.code.append(L(".Z"))
            elif use == "stored":
                c.keep(k)
            for r in [c.load() for _ in range(3)]:
                c.keep(r)
            c.code.append(I("JNEQ", lab_(".A"), c.load(4), num(4, 0)))
            for r in [c.load() for _ in range(2)]:
                c.keep(r)
            for r in ks:
                c.keep(r)
            add("LOOP value used at the top as %s, %d more live" % (use, live), c)
    # a chain of comparisons of one register, as a switch makes it
    for w, u in ((1, 0), (4, 0), (4, 1), (8, 0), (8, 1)):
        for live in (0, 3):
            c = C()
            ks = [c.load() for _ in range(live)]
            v = c.load(w, u)
            for i in range(3):
                c.code.append(I("JEQ", lab_(".C%d" % i), v, num(w, 10 + i)))
            c.code.append(I("JMP", lab_(".E")))
            for i in range(3):
                c.code.append(L(".C%d" % i))
                c.keep(c.load())
            c.code.append(L(".E"))
            for r in ks:
                c.keep(r)
            add("SWITCH on %d bits%s, %d live" % (8 * w, " unsigned" if u else "", live), c)
    # nested conditionals
    for depth in (2, 3):
        c = C()
        k = c.load()

        def nest(i):
            d = c.new(8)
            v = c.load(4)
            c.code.append(I("JEQ", lab_(".F%d" % i), v, num(4, 0)))
            s = nest(i + 1) if i < depth else c.load()
            c.code.append(I("LOAD", d, s))
            c.code.append(I("JMP", lab_(".E%d" % i)))
            c.code.append(L(".F%d" % i))
            s = c.load()
            c.code.append(I("LOAD", d, s))
            c.code.append(L(".E%d" % i))
            return d
        d = nest(1)
        c.keep(c.load())
        c.keep(d)
        c.keep(k)
        add("NEST %d conditionals" % depth, c)
        c = C()
        k = c.load()
        ds = [nest(1)]
        add("NEST %d conditionals in sequence" % depth, c)
    # redefinition
    for n in (1, 2, 3):
        c = C()
        r, o = c.load(), c.load()
        for i in range(n):
            c.code.append(I("ADD", r, r, o))
            c.keep(c.load())
        c.keep(r)
        add("REWRITE a register %d times" % n, c)
        c = C()
        r = c.load()
        for i in range(n):
            x_ = c.load()
            c.keep(x_)
            c.code.append(I("LOAD", r, mem(8)))
        c.keep(r)
        add("REWRITE a register from memory %d times" % n, c)
    # pointers as operands, written and read through
    for live in (0, 3, 5):
        c = C()
        p = c.load(8, 1)
        ks = [c.load() for _ in range(live)]
        v = c.new(8)
        c.code.append(I("LOAD", v, ptr(p[3])))
        c.keep(c.load())
        c.code.append(I("STORE", ptr(p[3]), v))
        for k in ks:
            c.keep(k)
        c.keep(c.load())
        c.code.append(I("STORE", ptr(p[3]), num(4, 1)))
        add("POINTER kept while %d values live" % live, c)
        c = C()
        ks = [c.load() for _ in range(live)]
        p, v = c.load(8, 1), c.load()
        c.code.append(I("STORE", ptr(p[3]), v))
        for k in ks:
            c.keep(k)
        add("POINTER target dies at the store, %d live" % live, c)
    # everything at once
    for live in (0, 1, 3):
        c = C()
        ks = [c.load() for _ in range(live)]
        a, b = c.load(4), c.load(4)
        d = c.new(4)
        c.code.append(I("DIV", d, a, b))
        r = c.call([("k", d), ("tern", [("v", 4)], [("c", 4, 1)])])
        e = c.new(4)
        c.code.append(I("SAL", e, r, d))
        c.keep(e)
        for k in ks:
            c.keep(k)
        add("MIX division, call, conditional, shift with %d live" % live, c)
    # several functions and data
    for a, b in ((3, 5), (8, 1), (1, 8)):
        fs = []
        for q, n in enumerate((a, b)):
            c = C(160, "fg"[q])
            rs = [c.load() for _ in range(n)]
            for r in reversed(rs):
                c.keep(r)
            c.code.append(L(".L%d" % (q + 5)))
            c.code.append(I("LEAVE", None, num(0, c.frame)))
            fs.append(c.code)
        mid = [("vlabel", "v", "GLOBAL"), ("data", "LONG", 5, "INTEGER_INT")]
        for q in (0, 1):
            add("FUNCTIONS with %d and %d values, function %d" % (a, b, q), fs[0] + fs[1], "fg"[q])
            add("FUNCTIONS with %d and %d values around data, function %d" % (a, b, q), fs[0] + mid + fs[1], "fg"[q])
    for key, p, name in list(S):
        if key.startswith("LOOP"):
            S.append((key + ", after a label", p[:2] + [L(".S")] + p[2:], name))
    return S


def go(R, key, p, name):
    if key.startswith("OVER"):
        out, E, text = check(p, name)
        R.saw(E.visited)
        bad = [o for o in out if o[0] != "stop"]
        if bad:
            R.bad("OVER", key, "src/regalloc", "; ".join("%s: %s" % o for o in bad[:3]))
        else:
            R.ok("OVER", key)
        return
    one(R, key, p, ("value", "control", "stop", "memory", "protocol", "align", "encoding"), name=name)


def run(R, tier):
    need("regalloc_allocate_regs")
    pmap(R, go, scenarios(tier))

"""P14: every statement form is lowered to the control flow C gives it."""
from rules.immc_common import *
from rules import immc_spec as S, cfgeq
from rules.p15 import leaf, lit, cast, node, addr, shapes, where_of, INTS, SYMS
from report import pmap

META = {"explanation":
        "Abstract interpretation of the lowering entry point for each statement kind with opaque sub-statements and "
        "expressions; the label/jump sequence of every abstract path is compared as a flow graph (bisimulation over "
        "labels, jumps and conditions) with the flow graph of the C statement, including the break/continue/return "
        "targets handed to sub-statements, the scope they run in, the case and default registrations of a switch, and "
        "the restoration of the generator's context afterwards.",
        "assumptions": ["sub-statements are lowered correctly (induction over the tree)"]}


def st(name, kind="SRT_CMPD_STMT", ch=()):
    return ("stmt", name, kind, list(ch))


class Sp(S.Spec):
    def stmt(self, t):
        kind, ch = t[2][4:-5], t[3]
        if kind == "CMPD":
            for c in ch:
                self.child(nm(c))
        elif kind == "CASE":
            self.label(S.Lab("CASE"))
            self.child(nm(ch[1]))
        elif kind == "DEFAULT":
            self.label(S.Lab("DEFAULT"))
            self.child(nm(ch[0]))
        elif kind == "CONTINUE":
            self.emit("jmp", S.Lab("CONT"))
        elif kind == "BREAK":
            self.emit("jmp", S.Lab("BRK"))
        elif kind == "RET":
            if ch:
                self.emit("stret", None, self.value(ch[0]))
            self.emit("jmp", S.Lab("RET"))
        elif kind == "EXPR":
            self.child(nm(ch[0]))
        elif kind == "NULL":
            pass
        elif kind == "IF":
            e = S.Lab()
            self.jump(ch[0], e, False)
            self.child(nm(ch[1]))
            if len(ch) == 3:
                e2 = S.Lab()
                self.emit("jmp", e2)
                self.label(e)
                self.child(nm(ch[2]))
                e = e2
            self.label(e)
        elif kind == "WHILE":
            b, e = S.Lab(), S.Lab()
            self.label(b)
            self.jump(ch[0], e, False)
            self.child(nm(ch[1]), **{"continue": b, "break": e})
            self.emit("jmp", b)
            self.label(e)
        elif kind == "FOR":
            b, c, e = S.Lab(), S.Lab(), S.Lab()
            self.child(nm(ch[0]))
            self.label(b)
            if ch[1][2] == "SRT_EXPR_STMT":
                self.jump(ch[1][3][0], e, False)
            self.child(nm(ch[3]), **{"continue": c, "break": e})
            self.label(c)
            self.child(nm(ch[2]))
            self.emit("jmp", b)
            self.label(e)
        elif kind == "SWITCH":
            e = S.Lab()
            r = self.reg(ch[0])
            self.emit("dispatch", r)
            self.child(nm(ch[1]), **{"break": e})
            self.label(e)
        else:
            raise ValueError(kind)


def nm(t):
    return t[4] if t[0] == "node" else t[3] if t[0] == "cast" else t[1]


def conds():
    for d in INTS + [("ptr", "int")]:
        for sh, a in shapes("c", d):
            if isinstance(d, tuple) and "constant" in sh:
                continue
            yield "%s-%s" % (d, sh), a
    for rel in ("EQUAL", "NEQUAL", "LESS", "GREATER", "LESSEQ", "GREATEREQ"):
        for d in INTS[1:] + [("ptr", "int")]:
            yield "%s-%s" % (rel, d), ("node", "SRT_%s_EXPR" % rel, "int", [leaf("a", d), leaf("b", d)], "cmp")
            yield "%s-%s-const" % (rel, d), ("node", "SRT_%s_EXPR" % rel, "int", [leaf("a", d), cast(d, lit("b", "int"))], "cmp")


def cases(tier):
    for n in range(0, 5):
        yield "compound/%d" % n, st("S", "SRT_CMPD_STMT", [st("s%d" % i) for i in range(n)])
    for d in ("int", "char", "long", "uint"):
        yield "case/%s" % d, st("S", "SRT_CASE_STMT", [lit("k", d), st("b")])
    yield "default", st("S", "SRT_DEFAULT_STMT", [st("b")])
    yield "continue", st("S", "SRT_CONTINUE_STMT")
    yield "break", st("S", "SRT_BREAK_STMT")
    yield "return", st("S", "SRT_RET_STMT")
    for d in INTS + [("ptr", "int")]:
        for sh, a in shapes("x", d):
            if not isinstance(d, tuple) or "constant" not in sh:
                yield "return/%s-%s" % (d, sh), st("S", "SRT_RET_STMT", [a])
    yield "expression", st("S", "SRT_EXPR_STMT", [leaf("e", "int")])
    yield "null", st("S", "SRT_NULL_STMT")
    for cn, c in conds():
        yield "if/%s" % cn, st("S", "SRT_IF_STMT", [c, st("t")])
        yield "if-else/%s" % cn, st("S", "SRT_IF_STMT", [c, st("t"), st("f")])
        yield "while/%s" % cn, st("S", "SRT_WHILE_STMT", [c, st("t")])
        yield "for/%s" % cn, st("S", "SRT_FOR_STMT", [st("i"), st("ce", "SRT_EXPR_STMT", [c]), st("n"), st("t")])
    yield "for/endless", st("S", "SRT_FOR_STMT", [st("i"), st("ce", "SRT_NULL_STMT"), st("n"), st("t")])
    for d in INTS:
        for sh, a in shapes("c", d):
            yield "switch/%s-%s" % (d, sh), st("S", "SRT_SWITCH_STMT", [a, st("t")])


def one(R, name, t):
    rule = "control-flow-of-" + name.split("/")[0]
    L = Lower()
    L.symbols = SYMS
    outer = L.lab.vec([], "t_pair")
    L.lab.s.wobj(("D", L.im)).f[("case_label_values",)] = outer
    root = build(L, t)
    sp = Sp(SYMS)
    sp.stmt(t)
    want = sp.lines()
    try:
        rs = L.run(root)
        outs = outcomes(L, root, rs)
    except Undecided as e:
        R.unk(rule, name, e)
        return
    R.saw(L.E.visited)
    where = where_of(L)
    if L.E.terminated:
        why, s, nd = L.E.terminated[0]
        R.bad(rule, name, "%s:%d %s" % (nd.file, nd.line, where), "lowering this statement is aborted (%s)" % (why,))
        return
    for k, f, l, fn, d, _ in L.E.findings:
        R.bad(rule, name, "%s:%d (%s)" % (f, l, fn), "%s: %s" % (k, d))
        return
    kind = t[2][4:-5]
    for o in outs:
        probs = list(o.probs)
        lines = o.lines
        roots = []
        im = o.s.objs[("D", L.im)].f
        cv = freeze(L.E, o.s, im[("case_label_values",)])
        own = [p for p in cv[1] if p[0] == "one"] if cv[0] == "vec" else None
        dl = strip(im[("default_label_id",)])
        C = Canon()
        C.seq(o.fz)
        defs = [x[:-1] for x in lines if x.endswith(":")]
        if im[("case_label_values",)] != outer:
            probs.append("the case list of the enclosing switch is not restored")
        if kind == "CASE":
            ok = own is not None and len(own) == 1
            if ok:
                pf = fields(own[0][1])
                lab_id = fields(pf.get("first_obj", pf.get("first", 0))).get((), None)
                vals = list(pf.values())
                labs = [v for v in vals if isinstance(v, tuple) and v and v[0] == "obj" and "nlab" in repr(v)]
                lits = [v for v in vals if isinstance(v, tuple) and v and v[0] == "obj" and "signed_value" in repr(v)]
                ok = len(labs) == 1 and len(lits) == 1 and ilit_show(lits[0]) == "(val k)"
                if ok:
                    key = [v for p, v in labs[0][2] if p == ()]
                    l = C.label(("text", (".L", ("dec", "d", key[0]))))
                    roots.append((l, "CASE"))
                    ok = l in defs
            if not ok:
                probs.append("the case label and its value are not registered with the enclosing switch")
        elif own:
            probs.append("a case label is registered by a statement that is no case")
        if kind == "DEFAULT":
            l = C.label(("text", (".L", ("dec", "d", dl))))
            roots.append((l, "DEFAULT"))
            if l not in defs:
                probs.append("the default label is not registered with the enclosing switch")
        elif dl != ("in", "DEF") and kind != "DEFAULT":
            probs.append("default label of the enclosing switch changed")
        if kind == "SWITCH":
            lines, p2 = switch_dispatch(lines, o, t, L)
            probs += p2
        empty = {show(k[1][1]) for k, d in o.facts.items() if isinstance(k, tuple) and k[0] == "size" and
                 isinstance(k[1], tuple) and k[1][0] == "code" and d.const() == 0}
        drop = lambda ls: [x for x in ls if not (x.startswith("<") and x[1:-1].split(" ")[0] in empty)]
        d = cfgeq.differs(drop(lines), drop(want), roots)
        if d:
            probs.insert(0, d)
        deep = 1 if kind in ("CMPD", "FOR") else 0
        for c in o.children:
            if any(x[0] != deep for x in c[4]):
                probs.append("sub-statement %s is not lowered in the scope it belongs to" % show(c[1]))
        if probs:
            R.bad(rule, name, where, "produced:\n%s\nrequired:\n%s\n%s" %
                  ("\n".join("  " + x for x in o.lines), "\n".join("  " + x for x in want), "\n".join(probs)))
            return
    R.ok(rule, name)


def switch_dispatch(lines, o, t, L):
    """repeat{jeq case} ; jmp default-or-break  ->  one dispatch step"""
    import re
    probs = []
    out = []
    i = 0
    seen = False
    brk = None
    for l in lines:
        m = re.match(r"^<\S+ break=(\S+)>$", l)
        if m:
            brk = m.group(1)
    while i < len(lines):
        l = lines[i]
        if l.startswith("repeat{"):
            seen = True
            alts = l[7:-1].split(" | ")
            regs = set()
            for a in alts:
                m = re.match(r"^jeq @case-label, (\S+), \$lit\(\(cases \d+\)\[\(it \d+\)\]\.\S+\):[lq]$", a)
                if not m:
                    probs.append("a case is not dispatched on equality with its value: %s" % a)
                else:
                    regs.add(m.group(1))
            reg = regs.pop() if len(regs) == 1 else "?"
            nxt = lines[i + 1] if i + 1 < len(lines) else ""
            out.append("dispatch " + reg)
            # the jump after the last case
            has_default = None
            for k, d in o.facts.items():
                if isinstance(k, tuple) and k[0] == "defl":
                    has_default = d.min() >= 0 or d.min() > 0
                    if d.max() <= 0:
                        has_default = False
            tgt = nxt[5:] if nxt.startswith("jmp @") else None
            if has_default is False and tgt != brk:
                probs.append("without a default label an unmatched value does not leave the switch")
            if has_default and (tgt == brk or tgt is None):
                probs.append("an unmatched value does not reach the default label")
            i += 2
            continue
        out.append(l)
        i += 1
    if not seen:
        probs.append("the cases of the body are not dispatched")
    return out, probs


def run(R, tier):
    pmap(R, one, cases(tier))

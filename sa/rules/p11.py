"""P11: jumps and labels are accepted only where C allows them."""
from rules.prog_common import *
from report import pmap

META = {"level": "other",
        "explanation": "The semantic stage is interpreted abstractly on whole functions whose statements are written out and whose expressions are opaque. "
                       "Every chain of enclosing statements is combined with every jump or label, and with every kind of statement completed "
                       "before it, and acceptance is compared with C11 6.8.",
        "assumptions": ["chains of up to three enclosing statements and one completed statement before the jump (two in the thorough tier): what a "
                        "statement hands to its parts depends on its kind and on what it was handed only"]}

NUL = ("null",)
WRAP = {"block": lambda s: ("cmpd", [s]), "while": lambda s: ("while", s), "for": lambda s: ("for", NUL, NUL, NUL, s),
        "switch": lambda s: ("switch", s), "then": lambda s: ("if", s), "else": lambda s: ("if", NUL, s), "case 9": lambda s: ("case", 9, s),
        "default": lambda s: ("default", s), "for decl": lambda s: ("for", ("decl", ["int"], [((), "i", None)]), NUL, NUL, s)}
PROBES = [("break",), ("continue",), ("case", 1, NUL), ("default", NUL), ("ret",), ("ret", "x"), ("case", ("nonconst", "SRT_ADD_EXPR", "int"), NUL)]
BEFORE = [("while", NUL), ("for", NUL, NUL, NUL, NUL), ("switch", NUL), ("switch", ("case", 1, NUL)), ("switch", ("default", NUL)),
          ("switch", ("cmpd", [("case", 1, ("break",)), ("default", ("break",))])), ("while", ("cmpd", [("break",), ("continue",)])),
          ("switch", ("while", ("break",))), ("while", ("switch", ("case", 1, ("continue",)))), ("if", NUL, NUL), ("cmpd", []),
          ("for", NUL, NUL, NUL, ("switch", ("default", NUL))), ("while", ("for", NUL, NUL, NUL, NUL)), ("while", ("while", NUL)),
          ("switch", ("switch", ("case", 1, NUL)))]
LABELS = [("case", 1, NUL), ("case", 2, NUL), ("default", NUL), ("cmpd", [("case", 1, NUL)]), ("cmpd", [("default", NUL)]), ("if", ("case", 1, NUL)),
          ("if", NUL, ("default", NUL)), ("while", ("case", 1, NUL)), ("for", NUL, NUL, NUL, ("default", NUL)), ("case", 2, ("case", 1, NUL)),
          ("case", 3, ("default", NUL)), ("default", ("case", 1, NUL)), ("cmpd", [("switch", ("case", 1, NUL))]), ("switch", ("default", NUL)),
          ("switch", ("cmpd", [("case", 1, NUL), ("case", 2, NUL)]))]


class Bad(Exception):
    pass


def check(s, loop, sw, ret):
    k = s[0]
    if k == "cmpd":
        for x in s[1]:
            check(x, loop, sw, ret)
    elif k == "if":
        for x in s[1:]:
            check(x, loop, sw, ret)
    elif k == "while":
        check(s[1], True, sw, ret)
    elif k == "for":
        check(s[4], True, sw, ret)
    elif k == "switch":
        check(s[1], loop, {"cases": set(), "default": False}, ret)
    elif k == "case":
        if sw is None or not isinstance(s[1], int) or s[1] in sw["cases"]:
            raise Bad
        sw["cases"].add(s[1])
        check(s[2], loop, sw, ret)
    elif k == "default":
        if sw is None or sw["default"]:
            raise Bad
        sw["default"] = True
        check(s[1], loop, sw, ret)
    elif k == "break":
        if not loop and sw is None:
            raise Bad
    elif k == "continue":
        if not loop:
            raise Bad
    elif k == "ret":
        if (ret == "void") != (len(s) == 1):
            raise Bad


def wrapped(chain, s):
    for w in reversed(chain):
        s = WRAP[w](s)
    return s


def chains(n):
    out = [()]
    lv = [()]
    for _ in range(n):
        lv = [c + (w,) for c in lv for w in WRAP]
        out += lv
    return out


def cases(tier):
    deep = 3 if tier == "quick" else 4
    for c in chains(deep):
        for p in PROBES:
            yield ("one jump", "int", ([wrapped(c, p)],))
    for p in PROBES:
        yield ("one jump", "void", ([p],))
    for c in chains(1 if tier == "quick" else 2):
        for b in BEFORE:
            for p in PROBES[:4]:
                yield ("after a statement", "void", ([wrapped(c, ("cmpd", [b, p]))],))
                yield ("after a statement", "void", ([wrapped(c, ("switch", ("cmpd", [b, p])))],))
                if tier == "thorough":
                    for b2 in BEFORE:
                        yield ("after a statement", "void", ([wrapped(c, ("cmpd", [b2, b, p]))],))
    for b in BEFORE:
        for p in PROBES[:6]:
            yield ("after a statement", "void", ([b, p],))
            yield ("in a second function", "void", ([b], [p]))
            yield ("in a second function", "int", ([("ret", "x"), b], [p]))
            yield ("after a statement", "void", ([("if", b, p)],))
    for a in LABELS:
        for b in LABELS:
            yield ("labels of one switch", "void", ([("switch", ("cmpd", [a, b]))],))
            yield ("labels of one switch", "void", ([("while", ("switch", ("cmpd", [a, b, ("continue",)])))],))
            if tier == "thorough":
                for c in LABELS:
                    yield ("labels of one switch", "void", ([("switch", ("cmpd", [a, b, c]))],))
    n = 8 if tier == "quick" else len(LABELS)
    for a in LABELS[:n]:
        for m in BEFORE:
            for b in LABELS[:n]:
                yield ("labels around a statement", "void", ([("switch", ("cmpd", [a, m, b]))],))
            for p in PROBES[:2]:
                yield ("labels around a statement", "void", ([("while", ("switch", ("cmpd", [a, m, p])))],))
                yield ("labels around a statement", "void", ([("switch", ("cmpd", [a, m, p]))],))
    big = [("case", i, NUL) for i in range(5)]
    for i in range(7):
        yield ("labels of one switch", "void", ([("switch", ("cmpd", big + [("case", i, NUL)]))],))
        yield ("labels of one switch", "void", ([("switch", ("cmpd", big + [("default", NUL), ("case", i, NUL)]))],))


def externals(ret, bodies):
    return [("func", [ret if i == 0 or len(bodies) == 1 else "void"], (("fn", ()),), "f%d" % i, b) for i, b in enumerate(bodies)]


def one(R, kind, ret, bodies):
    exts = externals(ret, bodies)
    try:
        for i, b in enumerate(bodies):
            for s in b:
                check(s, False, None, exts[i][1][0])
        good = True
    except Bad:
        good = False
    what = show_prog(exts)
    r = Prog()
    try:
        outs = r.run_prog(exts)
    except Undecided as e:
        R.unk(kind, what, e)
        return
    R.saw(r.E.visited)
    if not outs:
        R.bad(kind, "never returns", what, why_dead(r))
    for o in outs:
        if good and o.srt is None:
            R.bad(kind, "valid jump or label rejected: %s" % (o.errs and o.errs[0]), what, "rejected with %s" % (o.errs,))
        elif not good and o.srt is not None:
            R.bad(kind, "invalid jump or label accepted", what, "C11 6.8 forbids it")
        else:
            R.ok(kind, what)


def run(R, tier):
    need("resolver_resolve_semantics")
    pmap(R, one, list(cases(tier)))

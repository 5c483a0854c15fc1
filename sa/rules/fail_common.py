"""Scenarios for error propagation and ownership: every construct of the semantic stage with any of its parts rejected, and every
parser production with any of its phrases failing."""
import itertools
from rules.prog_common import *
from rules import init_ref as I
from rules import typing as T

_INS = None


def instances():
    global _INS
    if _INS is None:
        _INS = list(T.all_instances())
    return _INS


class Scene:
    """one analysis: what, run object (engine in .E), outcomes, names of the parts planned to fail"""

    def __init__(self, what, r, outs, fails):
        self.what, self.r, self.outs, self.fails = what, r, outs, set(fails)


def all_errors(E, s, heap0):
    """texts of every diagnostic created on the path"""
    out = []
    for x, o in s.objs.items():
        if x[0] == "H" and x not in heap0 and ("message",) in o.f:
            m = o.f[("message",)]
            if isinstance(m, tuple) and m[0] == "p":
                t = s.objs.get(m[1])
                if t is not None and t.kind in ("str", "buf"):
                    out.append(t.x)
    return out


# ---- expressions and statements
def expr_items(tier):
    best = {}
    for i, x in enumerate(instances()):
        best.setdefault((x.op(), x.expected[0]), []).append(i)
    n = 2 if tier == "quick" else 6
    sel = [i for v in best.values() for i in sorted(set(v[:n] + v[-n:]))]
    for i in sel:
        x = instances()[i]
        r = Res(x.root)
        x.build(r)
        ps = [p for p in r.plan if not p.startswith("tn")]
        for k in range(0, min(3, len(ps)) + 1):
            for c in itertools.combinations(ps, k):
                yield ("expr", i, c)


def expr_scene(i, sub):
    x = instances()[i]
    r, outs = x.analyse({n: 1 for n in sub})
    return Scene("%s with %s rejected" % (x.key, ", ".join(sub) or "nothing"), r, outs, sub)


# ---- declarations
F = "fail"


def decl_lists():
    """(specifiers, items): the places where a part can be rejected, alone and together"""
    A = lambda v: (("arr", v),)
    out = []
    dvs = [(A(F), A(2)), (A(2), A(F)), (A(F), A(F))]
    for a, b in dvs:
        out.append((["int"], [(a, "x", None), (b, "y", None)]))
        out.append((["typedef", "int"], [(a, "x", None), (b, "y", None)]))
        out.append(([("struct", "W", [(["int"], [(a, "m"), (b, "n")])])], [((), "w", None)]))
        out.append(([("struct", "W", [(["int"], [(a, "m")]), (["char"], [(b, "n")])])], [((), "w", None)]))
        out.append(([("struct", None, [(["int"], [(a, "m")]), (["char"], [(b, "n")])])], [((), "w", None)]))
        out.append((["int"], [((("fn", ((["int"], a, "p"), (["int"], b, "q"))),), "f", None)]))
        out.append((["int"], [((("ptr",), ("fn", ((["int"], a, "p"), (["int"], b, "q")))), "f", None)]))
        out.append((["int"], [(a + (("ptr",),), "x", None), ((("ptr",),) + b, "y", None)]))
        out.append((["int"], [(a + b, "x", None)]))
    for vs in ((F, 1), (1, F), (F, F), (None, F), (F, None), (("nonconst", "SRT_ADD_EXPR", "int"), F)):
        for name in ("W", None):
            for items in ([], [((), "w", None)]):
                out.append(([("enum", name, [("A", vs[0]), ("B", vs[1])])], items))
    bad = [(["int"], (), "x"), (["int"], A(0), "x"), (["int"], A(("nonconst", "SRT_ADD_EXPR", "int")), "x"), (["int"], (("arr", 2), ("fn", ())), "x"),
           (["int"], (("fn", ()), ("arr", 2)), "x"), (["int"], (("fn", ()), ("fn", ())), "x")]
    for _, d1, _ in bad:
        for _, d2, _ in bad:
            out.append((["int"], [(d1, "x", None), (d2, "y", None)]))
            out.append((["int"], [(d1, "x", None), (d2, "x", None)]))
            out.append(([("struct", "W", [(["int"], [(d1, "m"), (d2, "n")])])], [((), "w", None)]))
            out.append((["int"], [((("fn", ((["int"], d1, "p"), (["int"], d2, "q"))),), "f", None)]))
    for sp in (["int", "char"], ["void"], [("struct", "nope", None)], [("struct", "W", [(["void"], [((), "m")])])], [("struct", "W", [(["int"], [((), "m"), ((), "m")])])],
               [("struct", "W", [(["int"], [((("fn", ()),), "m")])])], ["typedef"], [("enum", "W", [("A", None), ("A", None)])],
               [("enum", "W", [("g", None)])], [("struct", "S", [(["int"], [((), "a")])])], [("struct", "E", None)], [("enum", "S", [("A", None)])],
               ["typedef", "int"], ["int"], [("tdname", "TS")], ["typedef", ("tdname", "TS")]):
        for items in ([], [((), "x", None)], [((), "x", None), ((("ptr",),), "y", None)], [((("fn", ()),), "x", None)],
                      [((), "x", ("e", "i1", Fail(1)))], [((), "x", ("e", "i1", Ok("SRT_ADD_EXPR", "int"))), ((), "y", ("e", "i2", Fail(1)))],
                      [((), "g", None), ((), "x", None)], [((), "x", None), ((), "x", None)], [((), "x", [("e", "i1", Fail(1)), ("e", "i2", Fail(1))])]):
            out.append((sp, items))
    for init in (("e", "i1", Ok("SRT_ADD_EXPR", "int")), ("e", "i1", Fail(1)), [("e", "i1", Fail(1))]):
        out.append((["int"], [((("fn", ()),), "f", init), ((), "x", init)]))
        out.append((["typedef", "int"], [((), "f", init), (A(2), "x", init)]))
        out.append((["int"], [((), "x", [init]), ((), "y", [[init]])]))
    e = lambda n, f: ("e", n, Fail(1) if f else Ok("SRT_ADD_EXPR", "int"))
    for f1, f2, f3 in itertools.product((0, 1), repeat=3):
        out.append((["int"], [((), "x", e("i1", f1)), ((), "y", e("i2", f2)), (A(F if f3 else 2), "z", None)]))
        out.append((["int"], [(A(F if f3 else 2), "z", [e("i1", f1), e("i2", f2)])]))
        out.append((["int"], [(A(1), "z", [e("i1", f1), e("i2", f2)]), ((), "g", e("i3", f3))]))
        out.append(([("struct", "W", [(["int"], [((), "m"), (A(2), "n")])])], [((), "w", [e("i1", f1), [e("i2", f2), e("i3", f3)]])]))
    return out


def decl_items(tier):
    for i in range(len(decl_lists())):
        for local in (0, 1):
            yield ("decl", i, local)


def planned(r):
    return [n for n, v in r.plan.items() if isinstance(v, Fail)]


def decl_scene(i, local):
    specs, items = decl_lists()[i]
    r = DRes("resolve_decl")
    r.inline_kinds.add("AST_STRING_EXPR")
    r.world(inner(STD, ({}, {})) if local else STD)
    root = r.a_decl(specs, items)
    return Scene("%s [%s]" % (show_decl(specs, items).replace("fail", "<error>"), "local" if local else "global"), r, r.run(root), planned(r))


# ---- initializers
def names_of(i):
    if isinstance(i, list):
        return [n for x in i for n in names_of(x)]
    return [] if I.is_str(i) else [i[1]]


def init_items(tier):
    for j, (d, i) in enumerate(I.init_cases()):
        ns = names_of(i)
        yield ("init", j, ())
        for k in range(1, 3):
            for c in itertools.combinations(ns, k):
                if k == 2 and tier == "quick" and j % 5:
                    continue
                yield ("init", j, c)


def init_scene(j, fails):
    d, i = list(I.init_cases())[j]
    e, outs, r, what = I.run_init(d, i, fails, True)
    return Scene("%s with %s rejected" % (what, ", ".join(fails) or "nothing"), r, outs, fails)


# ---- whole programs
NUL = ("null",)


def prog_list():
    X = Fail(1)
    x = "x"
    out = []
    fn = lambda body, name="f", ret="void": ("func", [ret], (("fn", ()),), name, body)
    bodies = lambda a, b: [
        [("expr", a), ("expr", b)], [("cmpd", [("expr", a)]), ("expr", b)], [("if", ("expr", a), ("expr", b))], [("if", ("expr", a))],
        [("while", ("expr", a)), ("expr", b)], [("for", ("expr", a), ("expr", b), NUL, NUL)], [("for", NUL, NUL, ("expr", a), ("expr", b))],
        [("for", ("expr", x), ("expr", a), ("expr", b), ("expr", a))], [("switch", ("cmpd", [("case", 1, ("expr", a)), ("default", ("expr", b))]))],
        [("switch", ("case", "fail" if isinstance(a, Fail) else 1, ("expr", b)))], [("decl", ["int"], [((), "v", ("e", "i1", a) if isinstance(a, Fail) else None)]), ("expr", b)],
        [("decl", ["int"], [((("arr", "fail" if isinstance(a, Fail) else 1),), "v", None)]), ("expr", b)],
        [("for", ("decl", ["int"], [((), "v", ("e", "i1", a) if isinstance(a, Fail) else None)]), ("expr", b), NUL, NUL)],
        [("expr", a), ("ret",), ("expr", b)], [("expr", a), ("break",), ("expr", b)], [("cmpd", [("decl", ["int"], [((), "v", None)]), ("expr", a)]), ("expr", ("use", "v")), ("expr", b)],
        [("while", ("switch", ("cmpd", [("case", 1, ("expr", a)), ("case", 1, ("expr", b))]))), ("expr", b)],
        [("while", ("cmpd", [("expr", a), ("continue",)])), ("while", ("expr", b)), ("continue",)]]
    for a, b in ((x, x), (X, x), (x, X), (X, X)):
        for i, bd in enumerate(bodies(a, b)):
            for cond in (x, X):
                if cond is X and not any(s[0] in ("if", "while", "switch") for s in bd):
                    continue
                out.append((cond, [fn(bd)]))
            out.append((x, [fn(bd), fn([("expr", x)], "g")]))
            out.append((x, [fn([("expr", x)], "g"), fn(bd)]))
            if i < 6:
                out.append((x, [fn(bd), fn([("expr", X)], "g")]))
                out.append((x, [("decl", ["int"], [((("arr", F),), "v", None)]), fn(bd)]))
                out.append((x, [fn(bd), ("decl", ["int"], [((("arr", F),), "v", None)])]))
    for ret in ("int", "void"):
        for b in ([("ret", X)], [("ret", x)], [("ret",)], [("ret", X), ("expr", X)]):
            out.append((x, [fn(b, "f", ret)]))
    S = [("struct", "S", [(["int"], [((), "a")])])]
    for ext in ([("decl", S, []), fn([("expr", ("dot", ("use", "s"), "a"))])], [("decl", S, [((), "s", None)]), fn([("expr", ("dot", ("use", "s"), "b"))])],
                [("decl", S, [((), "s", None)]), ("decl", S, [((), "t", None)])], [fn([]), fn([])], [fn([("expr", ("use", "u"))]), fn([("expr", ("use", "w"))], "g")],
                [("func", ["int", "char"], (("fn", ()),), "f", [("expr", X)])], [("func", ["int"], (("fn", ((["int"], (("arr", F),), "p"),)),), "f", [("expr", X)])],
                [("func", ["int"], (("fn", ((["int"], (), "p"), (["int"], (), "p"))),), "f", [("expr", x)])], [("func", ["int"], (), "f", [("expr", x)])],
                [("func", ["int"], (("fn", ((["int"], (), None),)),), "f", [])], [("func", ["typedef", "int"], (("fn", ()),), "f", [])],
                [("func", ["int"], (("fn", ((["int"], (), "p"),)),), "f", [("decl", ["int"], [((), "p", None)]), ("expr", X)])],
                [("func", ["int"], (("fn", ((["int"], (), "p"), (["void"], (), None))),), "f", [])],
                [("func", [("struct", "Q", None)], (("fn", ()),), "f", [])], [("func", ["int"], (("fn", (([("struct", "Q", None)], (), "p"),)),), "f", [])],
                [fn([("for", ("decl", ["typedef", "int"], [((), "T", None)]), NUL, NUL, ("expr", X))])],
                [fn([("for", ("decl", ["int"], [((), "v", None), ((), "v", None)]), ("expr", X), ("expr", X), ("expr", X))])],
                [fn([("switch", ("case", ("nonconst", "SRT_ILITERAL_EXPR", "uint"), ("expr", X)))])],
                [("decl", ["int"], [((), "v", ("e", "i1", X)), ((), "w", ("e", "i2", X))])], []):
        out.append((x, ext))
    return out


def prog_items(tier):
    for i in range(len(prog_list())):
        yield ("prog", i)


def prog_scene(i):
    cond, exts = prog_list()[i]
    r = Prog()
    r.cond = cond
    outs = r.run_prog(exts)
    return Scene("%s%s" % (show_prog(exts), " with a rejected condition" if isinstance(cond, Fail) else ""), r, outs, planned(r))


# ---- the instances of the other rules, nothing planned to fail: their own constraints do
def some(items, n, tier):
    return list(items)[::1 if tier == "thorough" else n]


def other_items(tier):
    from rules import p04, p11, p12
    for i in some(range(len(instances())), 2, tier):
        yield ("expr", i, ())
    yield from (("case04",) + x for x in some(list(p04.cases(tier)) + list(p04.enum_cases(tier)), 3, tier))
    yield from (("case11",) + x for x in some(p11.cases(tier), 7, tier))
    yield from (("case12",) + x for x in some(p12.cases(tier), 7, tier))


def scene04(*a):
    from rules import p04
    v, bad, what, r = p04.check(*a)
    return Scene("%s [%s]" % (what, a[1]), r, r.outs, planned(r))


def scene11(kind, ret, bodies):
    from rules import p11
    exts = p11.externals(ret, bodies)
    r = Prog()
    return Scene(show_prog(exts), r, r.run_prog(exts), ())


def scene12(kind, exts):
    r = Prog()
    return Scene(show_prog(exts), r, r.run_prog(exts), ())


SCENES = {"expr": expr_scene, "decl": decl_scene, "init": init_scene, "prog": prog_scene, "case04": scene04, "case11": scene11, "case12": scene12}


def resolver_items(tier):
    for g in (expr_items, decl_items, init_items, prog_items, other_items):
        yield from g(tier)

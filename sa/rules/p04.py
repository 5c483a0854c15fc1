"""P04: a declaration declares exactly the type that was written."""
from itertools import product
from rules.decl_common import *
from report import pmap

META = {"level": "other",
        "explanation": "The declaration half of the semantic stage is interpreted abstractly on every sequence of type specifiers, and on every chain of "
                       "declarator derivations over every class of base type, in each place a declarator can occur. The declared type, the symbol "
                       "entered, and acceptance or rejection are compared with a reference evaluation of C11 6.7.",
        "assumptions": ["derivation chains up to length three (four in the thorough tier); longer ones repeat the same step",
                        "declarations C allows but the language subset documents as unsupported are not judged"]}

WORDS = ["void", "char", "int", "long", "unsigned"]
FN0 = ("fn", ())
FN1 = ("fn", ((["int"], (), "p"),))
PARAMS = [((["int"], (), None),), ((["char"], (("arr", 2),), "a"), ([("tdname", "TF")], (), None)),
          ((["int"], (("fn", ()),), "h"),), ((["void"], (("ptr",),), "v"), (["unsigned", "long"], (), "n")),
          ((["int"], (), "p"), (["int"], (), "p")), ((["int"], (), "p"), (["long"], (), "q"), (["char"], (), "p")),
          ((["void"], (), "v"),), ((["int"], (), "p"), (["void"], (), None)), ((["typedef", "int"], (), "p"),),
          (([("struct", "S", None)], (), "s"),), (([("struct", "T", None)], (), "s"),), (([("struct", "T", None)], (("ptr",),), "s"),),
          (([("tdname", "TA")], (), "a"),), (([("tdname", "TA")], (("arr", 2),), "a"),), ((["int"], (("arr", 2), ("arr", 3)), "a"),),
          ((["int"], (("arr", 0),), "a"),), ((["int"], (("fn", ()), ("arr", 3)), "a"),), (([("enum", "E", None)], (), "e"),),
          ((["int"], (("ptr",), ("fn", ((["char"], (), None),))), "cb"), (["int"], (("ptr",), ("arr", 3)), "pa"))]
BASES = [["int"], ["char"], ["void"], ["unsigned", "long"], [("struct", "S", None)], [("struct", "T", None)], [("tdname", "TI")],
         [("tdname", "TS")], [("tdname", "TV")], [("tdname", "TF")], [("tdname", "TA")], [("tdname", "TT")], [("tdname", "TU")],
         [("tdname", "TP")], [("struct", None, [(["char"], [((), "u")]), (["long"], [((), "w")])])], [("enum", "E", None)]]
DERIV = [("ptr",), ("arr", 3), FN0, FN1]
LOCAL = inner(STD, ({}, {}))
CTX = ["global", "local", "typedef", "parameter", "member", "type name", "definition"]


def chains(n):
    for k in range(n + 1):
        for c in product(DERIV, repeat=k):
            yield c


def cases(tier):
    words = 4
    for k in range(0, words + 2):
        for c in product(WORDS, repeat=k):
            if k > words and len(set(c)) > 2:
                continue
            yield ("specifiers", "global", list(c), ((), ))
    for x in ([("struct", "S", None)], [("enum", "E", None)], [("tdname", "TI")]):
        for w in WORDS:
            yield ("specifiers", "global", x + [w], ((),))
            yield ("specifiers", "global", [w] + x, ((),))
            yield ("specifiers", "global", ["typedef"] + x + [w], ((),))
    for i in range(4):
        yield ("specifiers", "global", ["unsigned", "long", "int"][:i] + ["typedef"] + ["unsigned", "long", "int"][i:], ((),))
    long_ = 3 if tier == "quick" else 4
    for b in BASES:
        for c in chains(long_ if b in (["int"], ["void"], [("struct", "S", None)], [("tdname", "TF")]) else long_ - 1):
            for ctx in CTX:
                yield ("declarator", ctx, b, (c,))
    for ps in PARAMS:
        for ctx in CTX:
            for b in (["int"], ["void"]):
                yield ("parameters", ctx, b, ((("fn", ps),),))
            yield ("parameters", ctx, ["int"], ((("ptr",), ("fn", ps)),))
            yield ("parameters", ctx, ["int"], ((("fn", ps), ("ptr",)),))
    for n in (1, 0, -1, -5, 2, 100, ("nonconst", "SRT_IDENT_EXPR", "int"), ("nonconst", "SRT_ADD_EXPR", "int")):
        for ctx in CTX:
            for c in ((("arr", n),), (("ptr",), ("arr", n)), (("arr", 4), ("arr", n)), (("arr", n), ("ptr",))):
                yield ("array size", ctx, ["long"], (c,))
    for ctx in ("global", "local", "typedef"):
        for b in (["int"], [("struct", "S", None)], [("tdname", "TA")]):
            yield ("several declarators", ctx, b, ((), (("ptr",),), (("arr", 2),), (FN1,), ()))
            yield ("several declarators", ctx, b, ((("ptr",),), (), (("ptr",), ("ptr",))))


def enum_cases(tier):
    vals = [None, 0, 5, -2, ("val", "v")]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for c in product(vals, repeat=n):
            for nm in (None, "F") if n < 3 else ("F",):
                yield ("enumerators", "global" if n != 2 else "local", [("enum", nm, [("e%d" % i, v) for i, v in enumerate(c)])], ((), ))
    for c in ((("nonconst", "SRT_IDENT_EXPR", "int"),), (1, ("nonconst", "SRT_ADD_EXPR", "int")), (("nonconst", "SRT_IDENT_EXPR", "int"), 2)):
        yield ("enumerators", "global", [("enum", "F", [("e%d" % i, v) for i, v in enumerate(c)])], ((),))


def check(kind, ctx, specs, chs):
    if ctx in ("global", "local", "typedef"):
        sp = (["typedef"] if ctx == "typedef" else []) + specs
        W = STD if ctx == "global" else LOCAL
        items = [(c, "v%d" % i, None) for i, c in enumerate(chs)]
        v, bad, r, outs = judge_decl(W, sp, items)
        return v, bad, show_decl(sp, items), r
    c = chs[0]
    if ctx == "parameter":
        items = [((("fn", ((specs, c, "q"),)),), "f", None)]
        v, bad, r, outs = judge_decl(STD, ["int"], items)
        return v, bad, show_decl(["int"], items), r
    if ctx == "member":
        sp = [("struct", "M", [(["char"], [((), "c0")]), (specs, [(c, "m")])])]
        v, bad, r, outs = judge_decl(LOCAL, sp, [((), "v", None)])
        return v, bad, show_decl(sp, [((), "v", None)]), r
    if ctx == "type name":
        return type_name(specs, (("ptr",),) + c)
    return definition(specs, c)


def type_name(specs, c):
    what = "(%s %s)p" % (show_specs(specs), show_dv(c, None))
    W = LOCAL.copy()
    e = reference(W, lambda w: ref_declor(w, ref_specs(w, specs)[1], c))
    r = DRes("resolve_expr")
    r.world(LOCAL)
    tn = r.ast(r.fresh(), "AST_TYPE_NAME", [r.a_specs(specs, "AST_SPEC_QUAL_LIST"), r.a_declor(c, None)])
    outs = r.run(r.ast("root", "AST_CAST_EXPR", [tn, r.part("p", Ok("SRT_IDENT_EXPR", ("ptr", "void")))]))
    if e[0] == "free":
        return "free", [], what, r
    bad = [] if outs else ["never returns: %s" % why_dead(r)]
    for o in outs:
        bad += common_complaints(r, o)
        if e[0] == "rej":
            if o.srt is not None:
                bad.append("accepted, but C11 forbids it")
            continue
        if o.srt is None:
            bad.append("rejected (%s), but it is valid" % "; ".join(map(str, o.errs or ["?"])))
            continue
        got = nameless(dt_full(fields(o.srt)["dtype"]))
        if got != nameless(e[1]):
            bad.append("names the type %s, expected %s" % (d_full_str(got), d_full_str(e[1])))
        bad += table_complaints(r, o, W)
    return e[0], bad, what, r


def nameless(d):
    return d


def definition(specs, c):
    what = "%s %s {}" % (show_specs(specs), show_dv(c, "f"))

    def ref(w):
        td, b = ref_specs(w, specs)
        d = ref_declor(w, b, c)
        if td or not is_fn(d):
            raise Rej
        if any(n is None or incomplete(x) for n, x in d[1]) or (incomplete(d[2]) and d[2] != "void"):
            raise Rej
        if not c:
            raise Free                                  # the function type comes from a typedef name: no claim
        w.syms[0]["f"] = ("obj", d)
        return d
    W = STD.copy()
    e = reference(W, ref)
    r = DRes("resolve_function_definition")
    r.world(STD)
    body = r.ast("body", "AST_CMPD_STMT", [])
    outs = r.run(r.ast("root", "AST_FUNC_DEF", [r.a_specs(specs), r.a_declor(c, "f"), body]))
    if e[0] == "free":
        return "free", [], what, r
    bad = [] if outs else ["never returns: %s" % why_dead(r)]
    for o in outs:
        bad += common_complaints(r, o)
        if e[0] == "rej":
            if o.srt is not None:
                bad.append("accepted, but C11 forbids it")
            continue
        if o.srt is None:
            bad.append("rejected (%s), but it is valid" % "; ".join(map(str, o.errs or ["?"])))
            continue
        f = fields(o.srt)
        ch = f["children"][1]
        x = ident_decl(ch[0][1])
        if x != ("f", e[1]):
            bad.append("defines %s" % (x if isinstance(x, str) else "%s as %s, expected %s" % (x[0], d_full_str(x[1]), d_full_str(e[1]))))
        bad += table_complaints(r, o, W)
    return e[0], bad, what, r


def one(R, kind, ctx, specs, chs):
    try:
        v, bad, what, r = check(kind, ctx, specs, chs)
    except Undecided as e:
        R.unk(kind, "%s %s %s" % (ctx, show_specs(specs), [show_dv(c, "v") for c in chs]), e)
        return
    R.saw(r.E.visited)
    if v == "free":
        return
    for b in bad[:1]:
        R.bad(kind, "%s: %s" % (ctx, b.split(" (")[0][:100]), "%s  [%s]" % (what, ctx), "; ".join(bad))
    if not bad:
        R.ok(kind)


def run(R, tier):
    need("resolve_decl")
    need("resolve_function_definition")
    pmap(R, one, list(cases(tier)) + list(enum_cases(tier)))

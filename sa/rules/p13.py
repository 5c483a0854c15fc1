"""P13: sizes, alignments and structure layout follow the x86-64 ABI."""
from itertools import product
from rules.decl_common import *
from report import pmap

META = {"level": "other",
        "explanation": "The semantic stage is interpreted abstractly on structure declarations over every sequence of member types from a catalogue with one "
                       "representative per size and alignment class; the layout kept in the tag table, announced to the code generator and used by the "
                       "declared object is compared with the System V x86-64 rules. The size of every type is taken from the folded sizeof expression.",
        "assumptions": ["structures of up to three members (four in the thorough tier): a member's offset depends on the end of its predecessor and its "
                        "own alignment only, and all residues of the former occur"]}

W0 = World([{"TU": ("typedef", ("struct", "U", 0, 0, None))}],
           [{"S": ("struct", [("a", "char"), ("b", "int")]), "U": ("struct", [("x", "long"), ("y", "char")]),
             "C": ("struct", [("x", ("arr", "char", 5))]), "E": ("enum",)}])
MEMBERS = [(["char"], ()), (["int"], ()), (["long"], ()), (["int"], (("ptr",),)), (["char"], (("arr", 3),)), ([("struct", "S", None)], ()),
           ([("struct", "U", None)], ()), ([("struct", "C", None)], ()), (["long"], (("arr", 2),)), ([("struct", "S", None)], (("arr", 3),)),
           (["unsigned"], ()), (["unsigned", "long"], ()), (["long", "long"], ()), (["unsigned", "long", "long"], ()),
           (["int"], (("arr", 2), ("arr", 3))), (["char"], (("ptr",), ("arr", 4))), (["char"], (("arr", 3), ("ptr",))),
           ([("struct", None, [(["char"], [((), "p")]), (["long"], [((), "q")])])], ()), ([("enum", "E", None)], ()),
           ([("tdname", "TU")], ()), (["int"], (("ptr",), ("fn", ((["char"], (), None),)))),
           ([("struct", None, [(["char"], [((), "p")]), (["char"], [((), "q")])])], (("arr", 3),))]
CORE = MEMBERS[:8]


def cases(tier):
    for n in (1, 2):
        for c in product(MEMBERS, repeat=n):
            yield ("structure layout", c, "named")
    for c in product(CORE, repeat=3):
        yield ("structure layout", c, "named")
    for c in product(CORE, repeat=2):
        yield ("structure layout", c, "unnamed")
        yield ("structure layout", c, "shared")
        yield ("structure layout", c, "typedef")
        yield ("structure layout", c, "array")
    if tier == "thorough":
        for c in product(MEMBERS, repeat=3):
            if not set(map(repr, c)) <= set(map(repr, CORE)):
                yield ("structure layout", c, "named")
        for c in product(CORE[:7], repeat=4):
            yield ("structure layout", c, "named")
    for m in MEMBERS:
        yield ("sizeof", (m,), "type")
        yield ("sizeof", (m,), "object")
        for n in (1, 7):
            yield ("sizeof", ((m[0], (("arr", n),) + m[1]),), "type")
            yield ("sizeof", ((m[0], (("arr", n),) + m[1]),), "object")


def one(R, kind, c, how):
    try:
        if kind == "sizeof":
            v, bad, what, r = sizeof_case(c[0], how)
        else:
            ms = [(sp, [(dv, "m%d" % i)]) for i, (sp, dv) in enumerate(c)]
            if how == "shared":
                # several declarators behind one list of specifiers
                if c[0][0] != c[1][0] or c[0][0][0] == ("struct", None):
                    return
                ms = [(c[0][0], [(c[0][1], "m0"), (c[1][1], "m1"), (c[0][1], "m2")])]
            sp = (["typedef"] if how == "typedef" else []) + [("struct", None if how == "unnamed" else "M", ms)]
            items = [((("arr", 2),) if how == "array" else (), "v", None), ((("ptr",),), "w", None)]
            v, bad, r, outs = judge_decl(W0, sp, items)
            what = show_decl(sp, items)
    except Undecided as e:
        R.unk(kind, "%s %s" % (how, c), e)
        return
    R.saw(r.E.visited)
    if v == "free":
        return
    if bad:
        R.bad(kind, "%s: %s" % (how, bad[0].split(" (")[0][:100]), what, "; ".join(bad))
    else:
        R.ok(kind)


def sizeof_case(m, how):
    W = W0.copy()
    e = reference(W, lambda w: ref_declor(w, ref_specs(w, m[0])[1], m[1]))
    what = "sizeof(%s %s)" % (show_specs(m[0]), show_dv(m[1], None))
    r = DRes("resolve_expr")
    r.world(W0)
    if how == "type":
        x = r.ast(r.fresh(), "AST_TYPE_NAME", [r.a_specs(m[0], "AST_SPEC_QUAL_LIST"), r.a_declor(m[1], None)])
    else:
        x = r.part("x", Ok("SRT_INDIR_EXPR", e[1]))
    outs = r.run(r.ast("root", "AST_SIZEOF_EXPR", [x]))
    if e[0] != "acc":
        return "free", [], what, r
    want = t_size(e[1])
    bad = [] if outs else ["never returns: %s" % why_dead(r)]
    for o in outs:
        if o.srt is None:
            bad.append("rejected (%s)" % (o.errs,))
            continue
        f = fields(o.srt)
        il = f.get("iliteral", 0)
        if il == 0:
            bad.append("is not folded to a constant")
            continue
        g = fields(il)
        un = "UNSIGNED" in str(ename("IntegerLiteralType", g["type"]))
        got = g.get("unsigned_value" if un else "signed_value")
        if got != want:
            bad.append("is %s, expected %d" % (show(got), want))
    return "acc", bad, what, r


def run(R, tier):
    need("resolve_decl")
    pmap(R, one, list(cases(tier)))

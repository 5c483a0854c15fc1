"""P10: accepted expressions get C's result type and conversions."""
from rules.typing import *
from report import pmap

META = {"level": "other",
        "explanation": "The typed tree the resolver builds for every operator, cast, call, member access, condition and return over the catalogue of "
                       "operand types is derived by abstract interpretation of the resolver's source and compared with the tree C11 prescribes: "
                       "promotions, usual arithmetic conversions, conversions as if by assignment, decay, and the type of the result; redundant "
                       "casts are ignored.",
        "assumptions": ["operand types are drawn from a catalogue with one representative per class of types (all integer types, pointers, arrays, "
                        "structures, functions)"]}
INS = []


def deviation(ins, got, want):
    """the three deviations the repository's own tests pin down; anything else is judged as it stands"""
    op = ins.op()
    if op in ("SUB", "SUB_ASSIGN") and repl(got, "PDIFF_EXPR", "ullong", "long") == want:
        return "pointer difference has type unsigned long long"
    if op in ("SIZEOF", "SIZEOF_TYPE") and got[:2] == ("ILITERAL_EXPR", "int") and got[2:3] and got[2][2] == want[2][2]:
        return "sizeof has type int"
    if "SHIFT" in op:
        return None
    return None


def repl(t, kind, a, b):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == kind and t[1] == a:
        t = (t[0], b) + t[2:]
    return tuple(repl(c, kind, a, b) for c in t)


def shift_uac(ins):
    """the tree with the usual arithmetic conversions applied to a shift"""
    op = ins.op().replace("_ASSIGN", "")
    l = V(("leaf", "l"), ins.leafs["l"], True)
    r = V(("leaf", "r"), ins.leafs["r"])
    d = uac(l.d, r.d)
    v = V(node(op + "_EXPR", d, cast(l, d).t, cast(r, d).t), d)
    if ins.op().endswith("_ASSIGN"):
        return spec_assign(l, v)[1]
    return v.t


def one(R, i):
    ins = INS[i]
    e = ins.expected
    try:
        r, outs = ins.analyse()
    except Undecided as x:
        R.unk(ins.op(), ins.key, x)
        return
    R.saw(r.E.visited)
    want = norm_tree(e[1], ins.leafs)
    where = "src/resolver/expression.c" if ins.root == "resolve_expr" else "src/resolver/statement.c"
    for o in outs:
        if o.srt is None:
            continue                          # acceptance is P09's business
        got = norm_tree(srt_show(o.srt), ins.leafs)
        if got == want:
            R.ok(ins.op(), ins.key)
        else:
            dev = deviation(ins, got, want)
            if dev is None and "SHIFT" in ins.op() and got == norm_tree(shift_uac(ins), ins.leafs):
                dev = "shift converts both operands to a common type"
            R.bad(ins.op() if dev is None else "pinned deviation", ins.key if dev is None else dev, where,
                  "operands     %s\nC prescribes %s\nresolver     %s" % (ins.key, t_str(want), t_str(got)))
        n = leaves(got)
        twice = sorted({x for x in n if n.count(x) > 1})
        if twice:
            comp = ins.op().endswith("_ASSIGN") and twice == ["l"]
            R.bad("operands evaluated once", "compound assignment evaluates its left operand twice" if comp else ins.key, where,
                  "%s occurs more than once in %s" % (", ".join(twice), t_str(got)))
        elif e[0] == "acc":
            R.ok("operands evaluated once")


def run(R, tier):
    need("resolve_expr")
    need("resolve_stmt")
    INS[:] = [x for x in all_instances(tier) if x.expected[0] == "acc"]
    pmap(R, one, [(i,) for i in range(len(INS))])

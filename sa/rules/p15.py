"""P15: every expression form is lowered to code with the meaning C gives it."""
from rules.immc_common import *
from rules import immc_spec as S
from report import pmap

META = {"explanation":
        "Abstract interpretation of the lowering entry point for each expression node kind, with opaque operands "
        "(arbitrary code, arbitrary registers) and the operand types partitioned by kind; the abstract code sequence "
        "is compared, up to renaming of registers and labels, with a reference lowering written from the C semantics; "
        "freshness of register/label numbers and restoration of generator state are checked on every abstract path.",
        "assumptions": ["the resolver hands over trees typed as property P10 states",
                        "operands are lowered correctly (induction over the tree: each node kind is its own obligation)"]}

INTS = ["char", "int", "uint", "long", "ulong", "llong", "ullong"]
SYMS = {"g": "label", "m": 12}


def leaf(n, d):
    return ("leaf", n, d)


def lit(n, d):
    return ("lit", n, d)


def cast(d, t):
    return ("cast", d, t, "c_" + (t[3] if t[0] == "cast" else t[1]))


def addr(name, d):
    return ("node", "SRT_ADDR_EXPR", ("ptr", d), [("id", name, d)], "addr_" + name)


def node(kind, d, ch, **x):
    return ("node", "SRT_%s_EXPR" % kind, d, ch, "N", x)


def shapes(n, d):
    """operand shapes: computed value, constant, converted value, converted constant"""
    other = "int" if d != "int" else "char"
    yield "value", leaf(n, d)
    yield "constant", lit(n, d)
    yield "converted", cast(d, leaf(n, other))
    yield "converted-twice", cast(d, cast("char" if d != "char" else "uint", leaf(n, other)))
    yield "converted-constant", cast(d, lit(n, other))
    yield "constant-converted-twice", cast(d, cast("char" if d != "char" else "uint", lit(n, "long")))


def cases(tier):
    for op in ("OR", "XOR", "AND", "ADD", "SUB", "MUL", "DIV", "MOD", "LSHIFT", "RSHIFT"):
        for d in INTS[1:]:
            for sa, a in shapes("x", d):
                for sb, b in shapes("y", d):
                    yield "%s/%s/%s,%s" % (op, d, sa, sb), node(op, d, [a, b])
    for op in ("EQUAL", "NEQUAL", "LESS", "GREATER", "LESSEQ", "GREATEREQ"):
        for d in INTS[1:] + [("ptr", "int")]:
            for sa, a in shapes("x", d):
                for sb, b in shapes("y", d):
                    if d == ("ptr", "int") and "constant" in sa + sb:
                        continue
                    yield "%s/%s/%s,%s" % (op, d, sa, sb), node(op, "int", [a, b])
    for el in ["char", "int", "uint", "long", ("ptr", "char"), ("struct", "T", 12), ("arr", "int", 5)]:
        pt = ("ptr", el)
        for d in INTS:
            for sb, b in shapes("y", d):
                for op in ("PADD", "PSUB"):
                    yield "%s/%s/%s-%s" % (op, el, d, sb), node(op, pt, [leaf("x", pt), b])
        yield "PDIFF/%s" % (el,), node("PDIFF", "ullong", [leaf("x", pt), leaf("y", pt)])
        for op in ("PREINC", "PREDEC", "POSTINC", "POSTDEC"):
            for v in ("g", "m"):
                yield "%s/pointer to %s/%s" % (op, el, v), node(op, pt, [addr(v, pt)])
            yield "%s/pointer to %s/computed" % (op, el), node(op, pt, [leaf("x", ("ptr", pt))])
    for d in INTS:
        for op in ("PREINC", "PREDEC", "POSTINC", "POSTDEC"):
            for v in ("g", "m"):
                yield "%s/%s/%s" % (op, d, v), node(op, d, [addr(v, d)])
            yield "%s/%s/computed" % (op, d), node(op, d, [leaf("x", ("ptr", d))])
            yield "%s/%s/converted" % (op, d), node(op, d, [cast(("ptr", d), leaf("x", ("ptr", "char")))])
        for sb, b in shapes("y", d):
            for w, p in (("g", addr("g", d)), ("m", addr("m", d)), ("computed", leaf("p", ("ptr", d))),
                         ("converted", cast(("ptr", d), leaf("p", ("ptr", "long"))))):
                yield "ASSIGN/%s/%s=%s" % (d, w, sb), node("ASSIGN", d, [p, b])
        for w, p in (("g", addr("g", d)), ("m", addr("m", d)), ("computed", leaf("p", ("ptr", d))),
                     ("converted", cast(("ptr", d), leaf("p", ("ptr", "long"))))):
            yield "INDIR/%s/%s" % (d, w), node("INDIR", d, [p])
        for sa, a in shapes("x", d):
            yield "LNOT/%s/%s" % (d, sa), node("LNOT", "int", [a])
            for op in ("POS", "NEG", "NOT"):
                yield "%s/%s/%s" % (op, d, sa), node(op, d, [a])
            for sb, b in list(shapes("y", d))[:3]:
                for op in ("LOR", "LAND"):
                    yield "%s/%s/%s,%s" % (op, d, sa, sb), node(op, "int", [a, b])
                yield "COND/%s/%s,%s" % (d, sa, sb), node("COND", d, [leaf("c", "int"), a, b])
                yield "COND/%s-test/%s" % (d, sa), node("COND", "int", [a, leaf("x2", "int"), lit("y2", "int")])
        for to in INTS + [("ptr", "int")]:
            yield "CAST/%s->%s" % (d, to), node("CAST", to, [leaf("x", d)])
        yield "CAST/%s->void" % d, node("CAST", "void", [leaf("x", d)])
        yield "CAST/constant/%s" % d, node("CAST", d, [lit("x", "int")])
        yield "IDENT/%s/g" % d, node("IDENT", d, [], name="g")
        yield "IDENT/%s/m" % d, node("IDENT", d, [], name="m")
        yield "ILITERAL/%s" % d, node("ILITERAL", d, [])
    # a test made by a comparison jumps on the comparison itself
    for rel in ("EQUAL", "NEQUAL", "LESS", "GREATER", "LESSEQ", "GREATEREQ"):
        for d in INTS[1:]:
            for sa, a in shapes("x", d):
                c = ("node", "SRT_%s_EXPR" % rel, "int", [a, leaf("y", d)], "cmp")
                c2 = ("node", "SRT_%s_EXPR" % rel, "int", [a, lit("y", d)], "cmp")
                yield "COND/%s/%s-%s" % (rel, d, sa), node("COND", "int", [c, leaf("t", "int"), leaf("e", "int")])
                yield "LOR/%s/%s-%s" % (rel, d, sa), node("LOR", "int", [c, leaf("z", "int")])
                yield "LAND/%s/%s-%s" % (rel, d, sa), node("LAND", "int", [c2, leaf("z", "int")])
                yield "LAND2/%s/%s-%s" % (rel, d, sa), node("LAND", "int", [leaf("z", "int"), c2])
                yield "LOR2/%s/%s-%s" % (rel, d, sa), node("LOR", "int", [leaf("z", "int"), c2])
    # addresses
    for d in INTS + [("ptr", "int"), ("arr", "int", 3), ("struct", "T", 12)]:
        for v in ("g", "m"):
            yield "ADDR/%s/%s" % (d, v), node("ADDR", ("ptr", d), [("id", v, d)])
        yield "ADDR/indirection/%s" % (d,), node("ADDR", ("ptr", d), [
            ("node", "SRT_INDIR_EXPR", d, [leaf("p", ("ptr", d))], "ind")])
    yield "ADDR/string", node("ADDR", ("ptr", ("arr", "char", 4)), [
        ("node", "SRT_STR_EXPR", ("arr", "char", 4), [], "str", {"id": 7, "label": ".SL7"})])
    MEMBERS = [("a", "char", 0), ("b", "int", 4), ("c", "long", 8), ("d", ("ptr", "char"), 16)]
    for how in ("by-tag", "in-type"):
        for n, d, off in MEMBERS:
            st = ("struct", "T", 24) if how == "by-tag" else ("sstruct", [(m, x) for m, x, _ in MEMBERS])
            for w, b in (("value", leaf("s", ("ptr", st))),):
                m = ("node", "SRT_TOMEMBER_EXPR", d, [b], "N", {"member": n, "offset": off})
                yield "TOMEMBER/%s/%s" % (how, n), m
                yield "ADDR/member/%s/%s" % (how, n), node("ADDR", ("ptr", d), [m[:4] + ("mem", m[5])])
    # calls
    fn = ("ptr", ("fn", ["int"], "int"))
    for ret in INTS + [("ptr", "int"), "void"]:
        for n in (0, 1, 2, 3, 7):
            yield "CALL/%s/%d arguments" % (ret, n), node("CALL", ret, [addr("g", ("fn", [], ret))],
                                                          args=[leaf("a%d" % i, INTS[i % 7]) for i in range(n)])
        yield "CALL/%s/through pointer" % (ret,), node("CALL", ret, [leaf("f", fn)], args=[leaf("a", "int"), lit("b", "long")])
    for d in INTS:
        for sa, a in shapes("x", d):
            yield "CALL/argument %s/%s" % (d, sa), node("CALL", "int", [addr("g", ("fn", [], "int"))],
                                                        args=[a, leaf("z", "char")])


def analyse(t):
    L = Lower()
    L.symbols = SYMS
    T = ("sstruct", [("a", "char"), ("b", "int"), ("c", "long"), ("d", ("ptr", "char"))])
    L.tags["T"] = L.lab.dt(T)
    root = build(L, t)
    rs = L.run(root)
    return L, outcomes(L, root, rs)


def compare(R, rule, name, t, SpecFn, syms=SYMS):
    where = ROOT
    try:
        L, outs = analyse(t)
    except Undecided as e:
        R.unk(rule, name, e)
        return
    R.saw(L.E.visited)
    where = where_of(L)
    sp = S.Spec(syms)
    sp.expr(t)
    want = sp.lines()
    res = "void" if sp.result is None else sp.result.show(sp)
    if L.E.terminated:
        why, st, nd = L.E.terminated[0]
        R.bad(rule, name, "%s:%d %s" % (nd.file, nd.line, where),
              "compilation of this expression is aborted (%s)\nrequired code:\n%s" % (why, "\n".join(want)))
        return
    for k, f, l, fn, d, _ in L.E.findings:
        R.bad(rule, name, "%s:%d (%s)" % (f, l, fn), "%s: %s" % (k, d))
        return
    for o in outs:
        if o.lines != want or o.result != res or o.probs:
            R.bad(rule, name, where, "produced:\n%s\n  value in %s\nrequired:\n%s\n  value in %s\n%s" %
                  ("\n".join("  " + x for x in o.lines), o.result, "\n".join("  " + x for x in want), res,
                   "\n".join(o.probs)))
            return
    R.ok(rule, name)


def where_of(L):
    c = getattr(L.E, "entry_callees", [])
    return ", ".join("%s (%s:%d)" % x for x in c[:3]) or ROOT


def one(R, name, t):
    compare(R, "lowering-of-" + name.split("/")[0], name, t, None)


def run(R, tier):
    pmap(R, one, cases(tier))

"""Initializers (C11 6.7.9, without designators): enumeration of shapes, reference, abstract run."""
from itertools import product
from rules.decl_common import *


def subs(d, W):
    if is_arr(d):
        return [d[1]] * d[2]
    if is_struct(d):
        if d[4] is not None:
            return [x for _, _, x in d[4]]
        return [x for _, x in W.tag(d[1])[1]]
    return None


def aggregate(d):
    return is_arr(d) or is_struct(d)


def is_str(i):
    return isinstance(i, tuple) and i[0] == "s"


class Cursor:
    def __init__(self, items):
        self.items, self.i = items, 0

    def peek(self):
        return self.items[self.i] if self.i < len(self.items) else None

    def take(self):
        self.i += 1
        return self.items[self.i - 1]


def zero(d, W):
    if aggregate(d):
        return ("init", tuple(zero(x, W) for x in subs(d, W)))
    return ("zero", d)


def char_array(d):
    return is_arr(d) and d[1] == "char"


def string(d, i):
    if len(i[1]) > d[2]:
        raise Rej
    return ("string", d, (i[1] + "\0" * d[2])[:d[2]])


def ref_init(d, i, W):
    """object of type d initialised by i (its own expression, string or braced list) -> tree"""
    if not aggregate(d):
        if isinstance(i, list):
            if len(i) != 1:
                raise Rej
            if isinstance(i[0], list):
                raise Free
            i = i[0]
        if is_str(i):
            raise Free
        return ("leaf", i[1], d)
    if char_array(d):
        if is_str(i):
            return string(d, i)
        if isinstance(i, list) and len(i) == 1 and is_str(i[0]):
            return string(d, i[0])
    if not isinstance(i, list):
        raise Rej
    if not i:
        raise Free
    c = Cursor(i)
    t = fill(d, c, W)
    if c.peek() is not None:
        raise Rej
    return t


def fill(d, c, W):
    out = []
    for x in subs(d, W):
        n = c.peek()
        if n is None:
            out.append(zero(x, W))
        elif isinstance(n, list) or (char_array(x) and is_str(n)) or not aggregate(x):
            out.append(ref_init(x, c.take(), W))
        else:
            out.append(fill(x, c, W))
    return ("init", tuple(out))


# ------------------------------------------------------------------ shapes
class Names:
    def __init__(self):
        self.n = 0

    def leaf(self):
        self.n += 1
        return ("e", "e%d" % self.n)


def flat(d, W, N):
    if not aggregate(d):
        return [N.leaf()]
    return [y for x in subs(d, W) for y in flat(x, W, N)]


def shapes(d, W, depth=0):
    """lists of items initialising the members of d, as makers"""
    ss = subs(d, W)
    opts = []
    for x in ss[:3]:
        o = [lambda N, x=x: flat(x, W, N)]
        if aggregate(x):
            o.append(lambda N, x=x: [flat(x, W, N)])
            o.append(lambda N, x=x: [[N.leaf()]])
            y = subs(x, W)
            if len(y) > 1 and aggregate(y[0]) and depth == 0:
                o.append(lambda N, y=y: [[flat(y[0], W, N), N.leaf()]] if not aggregate(y[1]) else [[flat(y[0], W, N), [N.leaf()]]])
                o.append(lambda N, y=y: [[N.leaf()] if False else flat(y[0], W, N)[:1]])
            if char_array(x):
                o.append(lambda N, x=x: [("s", "abcdefgh"[:x[2] - 1])])
                o.append(lambda N, x=x: [[("s", "a")]])
        else:
            o.append(lambda N: [[N.leaf()]])
        opts.append(o)
    for combo in product(*opts):
        for k in range(1, len(combo) + 1):
            def mk(N, combo=combo, k=k):
                return [i for f in combo[:k] for i in f(N)]
            yield mk
            if k == len(combo) and len(ss) <= 3:
                yield lambda N, mk=mk: mk(N) + [N.leaf()]
    for k in range(1, len(flat(d, W, Names())) + 2):
        def mk(N, k=k):
            return [N.leaf() for _ in range(k)]
        yield mk


def ini_shapes(d, W):
    if not aggregate(d):
        yield lambda N: N.leaf()
        yield lambda N: [N.leaf()]
        yield lambda N: [N.leaf(), N.leaf()]
        return
    for mk in shapes(d, W):
        yield mk
    yield lambda N: N.leaf()
    if char_array(d):
        for n in range(0, d[2] + 2):
            t = "abcdefghijk"[:n]
            yield lambda N, t=t: ("s", t)
            yield lambda N, t=t: [("s", t)]
        yield lambda N: [("s", "a"), N.leaf()]


def targets(t, out):
    if t[0] == "leaf":
        out[t[1]] = t[2]
    elif t[0] == "init":
        for x in t[1]:
            targets(x, out)


def with_plans(i, tg, fails=()):
    if isinstance(i, list):
        return [with_plans(x, tg, fails) for x in i]
    if is_str(i):
        return i
    if i[1] in fails:
        return ("e", i[1], Fail(1))
    d = tg.get(i[1], "int")
    if is_ptr(d):
        return ("e", i[1], Ok("SRT_ADDR_EXPR", d))
    return ("e", i[1], Ok("SRT_ADD_EXPR", "int"))


def show_init(i):
    if isinstance(i, list):
        return "{%s}" % ", ".join(map(show_init, i))
    return '"%s"' % i[1] if is_str(i) else i[1]


def tree_of(fz, E=None, s=None):
    """SRT_INIT tree -> reference form"""
    f = fields(fz)
    k = ename("SrtType", f["type"])
    if k != "SRT_INIT":
        return ("?", k)
    ch = [p[1] for p in f["children"][1]]
    ks = [ename("SrtType", fields(c)["type"]) for c in ch]
    if ks == ["SRT_INIT"] or len(ch) != 1:
        return ("init", tuple(tree_of(c) for c in ch))
    if ks[0] == "SRT_SLITERAL_EXPR":
        g = fields(ch[0])
        sl = fields(g["sliteral"])
        return ("string", dt_full(g["dtype"]), text_of(sl["value"], sl["size"]))
    d, c = None, ch[0]
    g = fields(c)
    if ks[0] == "SRT_CAST_EXPR":
        d = dt_full(g["dtype"])
        c = g["children"][1][0][1]
        g = fields(c)
    lf = g.get("sliteral_id")
    if isinstance(lf, tuple) and lf[0] == "leafname":
        return ("leaf", lf[1], d or dt_full(g["dtype"]))
    if ename("SrtType", g["type"]) == "SRT_ILITERAL_EXPR" and fields(g["iliteral"]).get("signed_value") == 0:
        return ("zero", d or dt_full(g["dtype"]))
    return ("?", srt_show(ch[0]))


def text_of(fz, size):
    t = txt(fz)
    if not isinstance(t, str) or not isinstance(size, int):
        raise Undecided("string contents %s" % (show(fz),))
    return (t + "\0" * size)[:size]


W1 = World([{}], [{"S": ("struct", [("a", "char"), ("b", "int")]), "P": ("struct", [("p", ("ptr", "int")), ("q", "long")]),
                   "N": ("struct", [("x", ("struct", "S", 8, 4, None)), ("y", ("arr", "int", 2))])}])
S1 = struct_of("S", W1.tags[0]["S"][1])
TYPES = ["char", "int", "uint", "long", "ulong", "llong", "ullong", ("ptr", "int"), ("arr", "int", 3), ("arr", "long", 2), ("arr", "uint", 2),
         ("arr", "llong", 2), ("arr", "ullong", 2), ("arr", "ulong", 2), ("arr", "char", 3), ("arr", "char", 1),
         ("arr", ("ptr", "int"), 2), S1, ("arr", ("arr", "int", 2), 2), ("arr", ("arr", ("arr", "int", 2), 2), 2), ("arr", S1, 2),
         struct_of("P", W1.tags[0]["P"][1]), struct_of("N", W1.tags[0]["N"][1]), ("arr", struct_of("N", W1.tags[0]["N"][1]), 2),
         struct_of(None, [("c", ("arr", "char", 3)), ("n", "int"), ("d", ("arr", "char", 2))]), ("arr", ("arr", "char", 3), 2),
         struct_of(None, [("u", struct_of(None, [("l", "long"), ("m", ("arr", "uint", 2))])), ("z", "char")])]


def dspec(d):
    """type -> (specifiers, derivations)"""
    dv = []
    while is_arr(d) or is_ptr(d):
        dv.append(("arr", d[2]) if is_arr(d) else ("ptr",))
        d = d[1]
    if is_struct(d):
        if d[1] is not None:
            return [("struct", d[1], None)], tuple(dv)
        return [("struct", None, [(dspec(x)[0], [(dspec(x)[1], n)]) for n, _, x in d[4]])], tuple(dv)
    w = {"uint": ["unsigned"], "ulong": ["unsigned", "long"], "llong": ["long", "long"], "ullong": ["unsigned", "long", "long"]}
    return w.get(d, [d]), tuple(dv)


def init_cases():
    seen = set()
    for d in TYPES:
        for mk in ini_shapes(d, W1):
            i = mk(Names())
            k = (d, show_init(i))
            if k not in seen:
                seen.add(k)
                yield d, i


def run_init(d, i, fails=(), local=True):
    """-> (expected, outcomes, run, text)"""
    try:
        t = ref_init(d, i, W1)
        e = ("acc", t)
    except Rej:
        e = ("rej",)
    except Free:
        e = ("free",)
    tg = {}
    if e[0] == "acc":
        targets(t, tg)
    sp, dv = dspec(d)
    W = inner(W1, ({}, {})) if local else W1
    r = DRes("resolve_decl")
    r.inline_kinds.add("AST_STRING_EXPR")
    r.world(W)
    root = r.a_decl(sp, [(dv, "v", with_plans(i, tg, fails))])
    what = "%s %s = %s" % (show_specs(sp), show_dv(dv, "v"), show_init(i))
    return e, r.run(root), r, what

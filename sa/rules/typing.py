"""C11 6.5 typing rules, written from the standard, as a table of instances:
   instance = (key, build, expected) with expected one of
     ("acc", tree)   must be accepted, with that typed tree
     ("rej",)        must be rejected
     ("free",)       no claim (outside the supported language)"""
from rules.res_common import *

INTS = ["char", "int", "uint", "long", "ulong", "llong", "ullong"]
RANK = {"char": 1, "int": 2, "uint": 2, "long": 3, "ulong": 3, "llong": 4, "ullong": 4}
SIZE = {"char": 1, "int": 4, "uint": 4, "long": 8, "ulong": 8, "llong": 8, "ullong": 8}
S = ("struct", "S", 8, 4)
T = ("struct", "T", 0, 0)          # incomplete
FN = ("fn", ("int",), "int")
A = ("arr", "int", 3)


def P_(d):
    return ("ptr", d)


PTRS = [P_("int"), P_("char"), P_("void"), P_(P_("int")), P_(S), P_(T), P_(FN), P_(A)]
OTHERS = ["void", A, S, FN]
TYPES = INTS + PTRS + OTHERS


def is_int(d):
    return d in INTS


def is_ptr(d):
    return isinstance(d, tuple) and d[0] == "ptr"


def is_scalar(d):
    return is_int(d) or is_ptr(d)


def is_struct(d):
    return isinstance(d, tuple) and d[0] in ("struct", "sstruct")


def is_fn(d):
    return isinstance(d, tuple) and d[0] == "fn"


def is_arr(d):
    return isinstance(d, tuple) and d[0] == "arr"


def complete_object(d):
    if d == "void" or is_fn(d):
        return False
    if is_struct(d):
        return d[0] == "sstruct" or d[2] > 0
    return True


def sizeof(d):
    if is_int(d):
        return SIZE[d]
    if is_ptr(d):
        return 8
    if is_arr(d):
        return d[2] * sizeof(d[1])
    if is_struct(d):
        return d[2]
    raise ValueError(d)


def align(d):
    return align(d[1]) if is_arr(d) else sizeof(d)


def norm_d(d):
    """the form dt_show prints"""
    if isinstance(d, str) or d is None:
        return d
    if d[0] == "ptr":
        return ("ptr", norm_d(d[1]))
    if d[0] == "arr":
        return ("arr", norm_d(d[1]), d[2])
    if d[0] == "struct":
        return ("struct", d[1], d[2])
    if d[0] == "fn":
        return ("fn", tuple(norm_d(x) for x in d[1]), norm_d(d[2]))
    if d[0] == "sstruct":
        off = al = 0
        for _, m in d[1]:
            a = align(m)
            al = max(al, a)
            off = (off + a - 1) // a * a + sizeof(m)
        return ("struct", 0, (off + al - 1) // al * al)
    return d


def promote(d):
    return "int" if d == "char" else d


def uac(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    ua, ub = a[0] == "u", b[0] == "u"
    if ua == ub:
        return a if RANK[a] > RANK[b] else b
    u, s = (a, b) if ua else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    if SIZE[s] > SIZE[u]:
        return s
    return "u" + s


class V:
    """a typed operand: tree, type, lvalue?"""

    def __init__(self, tree, d, lv=False, kind=None):
        self.t, self.d, self.lv, self.kind = tree, d, lv, kind


def node(k, d, *ch):
    return tuple([k, norm_d(d)] + list(ch))


def cast(v, d):
    if v.d == d:
        return v
    return V(node("CAST_EXPR", d, v.t), d)


def decay(v):
    if is_arr(v.d):
        d = P_(v.d[1])
        return V(node("ADDR_EXPR", d, v.t), d)
    if is_fn(v.d):
        d = P_(v.d)
        return V(node("ADDR_EXPR", d, v.t), d)
    return v


def addr(v):
    return V(node("ADDR_EXPR", P_(v.d), v.t), P_(v.d))


ACC, REJ, FREE = "acc", ("rej",), ("free",)


def acc(v):
    return ("acc", v.t)


def compatible(a, b):
    return a == b


def assignable(to, frm):
    """'acc' / REJ / FREE for the simple assignment constraints"""
    if is_int(to) and is_int(frm):
        return ACC
    if is_ptr(to) and is_ptr(frm):
        if compatible(to, frm):
            return ACC
        a, b = to[1], frm[1]
        if a == "void" or b == "void":
            return FREE if is_fn(a) or is_fn(b) else ACC
        return REJ
    if is_struct(to) and compatible(to, frm):
        return FREE
    return REJ


def modifiable(v):
    return v.lv and not is_arr(v.d) and not is_fn(v.d) and v.d != "void" and complete_object(v.d)


def spec_assign(l, r):
    r = decay(r)
    if not modifiable(l):
        return REJ
    a = assignable(l.d, r.d)
    if a != ACC:
        return a
    return acc(V(node("ASSIGN_EXPR", l.d, addr(l).t, cast(r, l.d).t), l.d))


def spec_binary(op, l, r):
    """-> expected, value"""
    l, r = decay(l), decay(r)
    ii = is_int(l.d) and is_int(r.d)
    if op in ("MUL", "DIV", "MOD", "OR", "XOR", "AND"):
        if not ii:
            return REJ, None
        d = uac(l.d, r.d)
        v = V(node(op + "_EXPR", d, cast(l, d).t, cast(r, d).t), d)
        return acc(v), v
    if op in ("LSHIFT", "RSHIFT"):
        if not ii:
            return REJ, None
        d = promote(l.d)
        v = V(node(op + "_EXPR", d, cast(l, d).t, cast(r, promote(r.d)).t), d)
        return acc(v), v
    if op in ("LOR", "LAND"):
        if not (is_scalar(l.d) and is_scalar(r.d)):
            return REJ, None
        v = V(node(op + "_EXPR", "int", l.t, r.t), "int")
        return acc(v), v
    if op in ("EQUAL", "NEQUAL", "LESS", "GREATER", "LESSEQ", "GREATEREQ"):
        if ii:
            d = uac(l.d, r.d)
            v = V(node(op + "_EXPR", "int", cast(l, d).t, cast(r, d).t), "int")
            return acc(v), v
        if is_ptr(l.d) and is_ptr(r.d):
            if compatible(l.d, r.d):
                v = V(node(op + "_EXPR", "int", l.t, r.t), "int")
                if op not in ("EQUAL", "NEQUAL") and (is_fn(l.d[1]) or not complete_object(l.d[1])):
                    return FREE, None
                return acc(v), v
            if op in ("EQUAL", "NEQUAL") and "void" in (l.d[1], r.d[1]):
                return FREE, None
        return REJ, None
    if op == "ADD":
        if ii:
            d = uac(l.d, r.d)
            v = V(node("ADD_EXPR", d, cast(l, d).t, cast(r, d).t), d)
            return acc(v), v
        if is_int(l.d) and is_ptr(r.d):
            l, r = r, l
        if is_ptr(l.d) and is_int(r.d) and complete_object(l.d[1]):
            v = V(node("PADD_EXPR", l.d, l.t, r.t), l.d)
            return acc(v), v
        return REJ, None
    if op == "SUB":
        if ii:
            d = uac(l.d, r.d)
            v = V(node("SUB_EXPR", d, cast(l, d).t, cast(r, d).t), d)
            return acc(v), v
        if is_ptr(l.d) and is_int(r.d) and complete_object(l.d[1]):
            v = V(node("PSUB_EXPR", l.d, l.t, r.t), l.d)
            return acc(v), v
        if is_ptr(l.d) and is_ptr(r.d) and compatible(l.d, r.d) and complete_object(l.d[1]):
            v = V(node("PDIFF_EXPR", "long", l.t, r.t), "long")
            return acc(v), v
        return REJ, None
    raise ValueError(op)


BINOPS = ["MUL", "DIV", "MOD", "ADD", "SUB", "LSHIFT", "RSHIFT", "LESS", "GREATER", "LESSEQ", "GREATEREQ", "EQUAL", "NEQUAL",
          "AND", "XOR", "OR", "LAND", "LOR"]
COMPOUND = ["MUL", "DIV", "MOD", "ADD", "SUB", "LSHIFT", "RSHIFT", "OR", "XOR", "AND"]

KIND = {"id": ("SRT_IDENT_EXPR", True), "ind": ("SRT_INDIR_EXPR", True), "mem": ("SRT_TOMEMBER_EXPR", True),
        "call": ("SRT_CALL_EXPR", False), "lit": ("SRT_ILITERAL_EXPR", False), "cast": ("SRT_CAST_EXPR", False),
        "add": ("SRT_ADD_EXPR", False), "asg": ("SRT_ASSIGN_EXPR", False), "cond": ("SRT_COND_EXPR", False),
        "addr": ("SRT_ADDR_EXPR", False), "preinc": ("SRT_PREINC_EXPR", False), "postinc": ("SRT_POSTINC_EXPR", False)}


def kinds_of(d, more=False):
    if is_fn(d):
        return ["id", "ind"]
    if is_arr(d):
        return ["id", "ind", "mem"]
    if d == "void":
        return ["call", "ind"]
    if d == T:
        return ["ind"]
    if is_struct(d):
        return ["id", "ind", "mem", "call"]
    r = ["id", "ind", "mem", "call"]
    if is_int(d):
        r += ["lit"] if d != "char" else []
        r += ["add", "asg", "cast", "cond", "preinc", "postinc"]
    else:
        r += ["addr", "cast", "cond", "asg", "preinc", "postinc"]
    return r


class Opd:
    """an opaque operand of an instance"""

    def __init__(self, name, kind, d, fail=0):
        self.name, self.kind, self.d, self.fail = name, kind, d, fail

    def val(self):
        return V(("leaf", self.name), self.d, KIND[self.kind][1], self.kind)

    def part(self, r):
        out = Fail(self.fail) if self.fail else Ok(KIND[self.kind][0], self.d, **({"value": 1} if self.kind == "lit" else {}))
        return r.part(self.name, out)

    def key(self):
        return "%s:%s" % (self.kind, d_str(norm_d(self.d)))


def simple_kind(d):
    return {"void": "call"}.get(d if isinstance(d, str) else None, "ind" if d == T else "id" if is_fn(d) or is_arr(d) or
                                                                    is_struct(d) else "call")


def binary_instances(types=None):
    types = types or TYPES
    for op in BINOPS:
        for a in types:
            for b in types:
                l, r = Opd("l", simple_kind(a), a), Opd("r", simple_kind(b), b)
                yield ("%s(%s, %s)" % (op, l.key(), r.key()), "AST_%s_EXPR" % op, [l, r], spec_binary(op, l.val(), r.val())[0])


def assign_instances():
    for a in TYPES + [T]:
        for ka in kinds_of(a):
            few = ka != "id"
            for b in (["int", P_("int"), "void"] + ([a] if a not in ("int", "void", T) else [])) if few else TYPES:
                l, r = Opd("l", ka, a), Opd("r", simple_kind(b), b)
                yield ("ASSIGN(%s, %s)" % (l.key(), r.key()), "AST_ASSIGN_EXPR", [l, r], spec_assign(l.val(), r.val()))
    for op in COMPOUND:
        for a in TYPES:
            for ka in (["id", "call"] if is_int(a) or is_ptr(a) else [simple_kind(a)]):
                for b in TYPES:
                    l, r = Opd("l", ka, a), Opd("r", simple_kind(b), b)
                    e, v = spec_binary(op, l.val(), r.val())
                    if e[0] == "acc":
                        e = spec_assign(l.val(), v)
                    elif not modifiable(l.val()):
                        e = REJ
                    yield ("%s_ASSIGN(%s, %s)" % (op, l.key(), r.key()), "AST_%s_ASSIGN_EXPR" % op, [l, r], e)


def spec_unary(op, v):
    if op in ("POS", "NEG"):
        if not is_int(v.d):
            return REJ
        d = promote(v.d)
        return acc(V(node(op + "_EXPR", d, cast(v, d).t), d))
    if op == "NOT":
        if not is_int(v.d):
            return REJ
        d = promote(v.d)
        return acc(V(node("NOT_EXPR", d, cast(v, d).t), d))
    if op == "LNOT":
        v = decay(v)
        if not is_scalar(v.d):
            return REJ
        return acc(V(node("LNOT_EXPR", "int", v.t), "int"))
    if op == "ADDR":
        if v.d == "void" or v.d == T:
            return FREE
        if is_fn(v.d) or v.lv:
            return acc(addr(v))
        return REJ
    if op == "INDIR":
        v = decay(v)
        if not is_ptr(v.d):
            return REJ
        if v.d[1] == "void" or v.d[1] == T:
            return FREE
        return acc(V(node("INDIR_EXPR", v.d[1], v.t), v.d[1]))
    if op in ("PREINC", "PREDEC", "POSTINC", "POSTDEC"):
        if not modifiable(v):
            return REJ
        if is_int(v.d) or (is_ptr(v.d) and complete_object(v.d[1])):
            return acc(V(node(op + "_EXPR", v.d, addr(v).t), v.d))
        return REJ
    if op == "SIZEOF":
        if not complete_object(v.d):
            return REJ
        return ("acc", ("ILITERAL_EXPR", "ulong", ("int", "INTEGER_UNSIGNED_LONG", str(sizeof(v.d)))))
    raise ValueError(op)


UNOPS = ["POS", "NEG", "NOT", "LNOT", "ADDR", "INDIR", "PREINC", "PREDEC", "POSTINC", "POSTDEC", "SIZEOF"]


def unary_instances():
    for op in UNOPS:
        for d in TYPES + [T]:
            for k in kinds_of(d):
                o = Opd("x", k, d)
                yield ("%s(%s)" % (op, o.key()), "AST_%s_EXPR" % op, [o], spec_unary(op, o.val()))


def spec_cond(c, a, b):
    c, a, b = decay(c), decay(a), decay(b)
    if not is_scalar(c.d):
        return REJ
    if is_int(a.d) and is_int(b.d):
        d = uac(a.d, b.d)
        return acc(V(node("COND_EXPR", d, c.t, cast(a, d).t, cast(b, d).t), d))
    if is_ptr(a.d) and is_ptr(b.d):
        if compatible(a.d, b.d):
            return acc(V(node("COND_EXPR", a.d, c.t, a.t, b.t), a.d))
        return FREE if "void" in (a.d[1], b.d[1]) else REJ
    if is_struct(a.d) and a.d == b.d:
        return FREE
    if a.d == "void" and b.d == "void":
        return FREE
    return REJ


def cond_instances():
    for c in ["int", "ulong", P_("int"), P_("void"), A, FN, S, "void", "char"]:
        for a in TYPES:
            for b in (TYPES if c == "int" else ["int", a] if a != "int" else ["int"]):
                o = [Opd("c", simple_kind(c), c), Opd("a", simple_kind(a), a), Opd("b", simple_kind(b), b)]
                yield ("COND(%s, %s, %s)" % tuple(x.key() for x in o), "AST_COND_EXPR", o, spec_cond(*[x.val() for x in o]))


def subscript_instances():
    for a in TYPES:
        for b in TYPES:
            o = [Opd("l", simple_kind(a), a), Opd("r", simple_kind(b), b)]
            l, r = decay(o[0].val()), decay(o[1].val())
            if is_int(l.d) and is_ptr(r.d):
                l, r = r, l
            if not (is_ptr(l.d) and is_int(r.d)) or not complete_object(l.d[1]):
                e = REJ
            else:
                e = acc(V(node("INDIR_EXPR", l.d[1], node("PADD_EXPR", l.d, l.t, r.t)), l.d[1]))
            yield ("SUBSC(%s, %s)" % tuple(x.key() for x in o), "AST_SUBSC_EXPR", o, e)


class Inst:
    """one rule instance: what is resolved (root entry + syntax) and what C prescribes"""

    def __init__(self, key, root, build, leafs, expected, outer=None, inline=()):
        self.key, self.root, self.build, self.leafs, self.expected = key, root, build, leafs, expected
        self.outer, self.inline = outer, inline

    def op(self):
        return self.key.split("(")[0]

    def analyse(self, fail=None):
        """fail: dict part name -> number of errors it reports"""
        r = Res(self.root)
        r.inline_kinds = set(self.inline)
        r.fail = fail or {}
        top = self.build(r)
        for k, n in r.fail.items():
            r.plan[k] = Fail(n)
        outs = r.run(top, self.outer(r) if self.outer else None)
        return r, outs


def expr(key, astkind, opds, e):
    def build(r):
        return r.ast("root", astkind, [o.part(r) for o in opds])
    return Inst(key, "resolve_expr", build, {o.name: o.d for o in opds}, e)


def cast_instances():
    targets = ["void"] + INTS + PTRS + [A, FN]
    for d in targets:
        for s in TYPES:
            for k in ([simple_kind(s)] + (["lit"] if s in ("int", "ulong") else [])):
                o = Opd("x", k, s)
                v = decay(o.val())
                if d == "void":
                    e = acc(V(node("CAST_EXPR", d, v.t), d)) if s != "void" else FREE
                    if is_arr(s) or is_fn(s):
                        e = FREE
                elif is_scalar(d) and is_scalar(v.d):
                    e = acc(V(node("CAST_EXPR", d, v.t), d))
                else:
                    e = REJ

                def build(r, d=d, o=o):
                    return r.ast("root", "AST_CAST_EXPR", [r.type_name(d), o.part(r)])
                if d == P_(T) or d == P_(S):
                    continue
                yield Inst("CAST(%s, %s)" % (d_str(norm_d(d)), o.key()), "resolve_expr", build, {"x": s}, e)


def sizeof_type_instances():
    for d in ["void"] + INTS + [x for x in PTRS if x not in (P_(S), P_(T))] + [A, FN, ("arr", P_("char"), 5), ("arr", A, 4)]:
        e = REJ if not complete_object(d) else ("acc", ("ILITERAL_EXPR", "ulong", ("int", "INTEGER_UNSIGNED_LONG", str(sizeof(d)))))

        def build(r, d=d):
            return r.ast("root", "AST_SIZEOF_EXPR", [r.type_name(d)])
        yield Inst("SIZEOF_TYPE(%s)" % d_str(norm_d(d)), "resolve_expr", build, {}, e)


def spec_call(f, args):
    f = decay(f)
    if not (is_ptr(f.d) and is_fn(f.d[1])):
        return REJ
    ps = f.d[1][1]
    if len(ps) != len(args):
        return REJ
    out, free = [], False
    for p, a in zip(ps, args):
        a = decay(a)
        k = assignable(p, a.d)
        if k == REJ:
            return REJ
        if k == FREE:
            free = True
        else:
            out.append(cast(a, p).t)
    if free:
        return FREE
    ret = f.d[1][2]
    return acc(V(node("CALL_EXPR", ret, f.t, node("ARG_LIST", None, *out)), ret))


def call_instances():
    cs = []
    fs = [("fn", (), "void"), ("fn", (), "int"), ("fn", ("int",), P_("char")), ("fn", ("char", "ulong"), "ulong"),
          ("fn", ("int", "long", P_("int")), "char")]
    for f in fs:
        for k in ("id", "ind"):
            cs.append((Opd("f", k, f), [Opd("a%d" % i, "call", p) for i, p in enumerate(f[1])]))
        cs.append((Opd("f", "call", P_(f)), [Opd("a%d" % i, "call", p) for i, p in enumerate(f[1])]))
        cs.append((Opd("f", "id", f), [Opd("a%d" % i, "call", "int") for i in range(len(f[1]) + 1)]))
        if f[1]:
            cs.append((Opd("f", "id", f), [Opd("a%d" % i, "call", p) for i, p in enumerate(f[1][:-1])]))
    for d in TYPES:
        if not is_fn(d) and d != P_(FN):
            cs.append((Opd("f", simple_kind(d), d), []))
            cs.append((Opd("f", simple_kind(d), d), [Opd("a0", "call", "int")]))
    for p in INTS + PTRS:
        for a in TYPES:
            cs.append((Opd("f", "id", ("fn", (p,), "int")), [Opd("a0", simple_kind(a), a)]))
            cs.append((Opd("f", "id", ("fn", ("int", p), "void")), [Opd("a0", "lit", "long"), Opd("a1", simple_kind(a), a)]))
    for f, args in cs:
        def build(r, f=f, args=args):
            return r.ast("root", "AST_CALL_EXPR", [f.part(r), r.ast("args", "AST_ARG_LIST", [a.part(r) for a in args])])
        lf = {a.name: a.d for a in args}
        lf["f"] = f.d
        yield Inst("CALL(%s; %s)" % (f.key(), ", ".join(a.key() for a in args)), "resolve_expr", build, lf,
                   spec_call(f.val(), [a.val() for a in args]))


MEMBERS = [("a", "int"), ("b", "char"), ("c", P_("int")), ("d", ("arr", "long", 2)), ("e", P_("void"))]
U = ("sstruct", tuple(MEMBERS))


def member_instances():
    def build_for(arrow, o, m, define):
        def build(r):
            if define:
                L = r.lab
                ms = [L.call("new_dstructmember", L.text(n), L.dt(x)) for n, x in MEMBERS]
                L.call("tagtable_define_struct", r.obj().f[("tag_table",)], L.text("S"), L.vec(ms, "t_dstructmember"))
            return r.ast("root", "AST_TOMEMBER_EXPR" if arrow else "AST_MEMBER_EXPR",
                         [o.part(r), r.ast("m", "AST_IDENT_EXPR", (), ident_name=r.lab.text(m))])
        return build
    names = [m for m, _ in MEMBERS] + ["zz"]
    for arrow in (False, True):
        for base, define in ((U, False), (S, True), (T, False)):
            ds = [base, P_(base), ("arr", base, 2), P_(P_(base))]
            for d in ds:
                for k in (["id", "ind", "mem", "call"] if is_ptr(d) else ["id", "ind", "mem"]):
                    if d == T and k != "ind":
                        continue
                    for m in names:
                        o = Opd("x", k, d)
                        v = o.val()
                        good = (decay(v).d == P_(base)) if arrow else d == base
                        md = dict(MEMBERS).get(m)
                        if not good or md is None or base == T:
                            e = REJ
                        else:
                            x = decay(v) if arrow else addr(v)
                            e = acc(V(node("TOMEMBER_EXPR", md, x.t, ("IDENT_EXPR", norm_d(md), ("name", m))), md))
                        yield Inst("%s(%s, %s%s)" % ("ARROW" if arrow else "DOT", o.key(), m, " defined" if define else ""),
                                   "resolve_expr", build_for(arrow, o, m, define), {"x": d}, e)
        for d in TYPES:
            if is_struct(d) or d in (P_(S), P_(T)):
                continue
            o = Opd("x", simple_kind(d), d)
            yield Inst("%s(%s, a)" % ("ARROW" if arrow else "DOT", o.key()), "resolve_expr", build_for(arrow, o, "a", False), {"x": d}, REJ)


def primary_instances():
    for d, lt in (("int", "INTEGER_INT"), ("uint", "INTEGER_UNSIGNED_INT"), ("long", "INTEGER_LONG"),
                  ("ulong", "INTEGER_UNSIGNED_LONG"), ("llong", "INTEGER_LONGLONG"), ("ullong", "INTEGER_UNSIGNED_LONGLONG")):
        def build(r, d=d, lt=lt):
            il = r.lab.call("new_unsigned_iliteral" if d[0] == "u" else "new_signed_iliteral", ev(lt), ("val", "n"))
            return r.ast("root", "AST_INT_EXPR", (), iliteral=il)
        yield Inst("INT_LITERAL(%s)" % d, "resolve_expr", build, {},
                   ("acc", ("ILITERAL_EXPR", d, ("int", lt, show(("val", "n"))))))

    def buildc(r):
        il = r.lab.call("new_signed_iliteral", ev("INTEGER_INT"), ("val", "n"))
        return r.ast("root", "AST_CHAR_EXPR", (), iliteral=il)
    yield Inst("CHAR_LITERAL()", "resolve_expr", buildc, {}, ("acc", ("ILITERAL_EXPR", "int", ("int", "INTEGER_INT", show(("val", "n"))))))


def snode(k, *ch):
    return tuple([k, None] + list(ch))


def stmt_instances():
    """conditions, switch operands, returns, expression statements"""
    def mk(key, build, leafs, e, outer=None, inline=()):
        return Inst(key, "resolve_stmt", build, leafs, e, outer, inline)
    stm = Ok("SRT_EXPR_STMT", None)
    for d in TYPES:
        for k in kinds_of(d) if d in ("int", P_("int")) else [simple_kind(d)]:
            o = Opd("c", k, d)
            v = decay(o.val())
            okc = is_scalar(v.d)
            for els in (0, 1):
                def b(r, o=o, els=els):
                    return r.ast("root", "AST_IF_STMT", [o.part(r), r.part("s", stm, "AST_CALL_EXPR")] +
                                 ([r.part("e", stm)] if els else []))
                yield mk("IF(%s, %d)" % (o.key(), els), b, {"c": d},
                         ("acc", snode("IF_STMT", v.t, ("leaf", "s"), *([("leaf", "e")] if els else []))) if okc else REJ)

            def b(r, o=o):
                return r.ast("root", "AST_WHILE_STMT", [o.part(r), r.part("s", stm)])
            yield mk("WHILE(%s)" % o.key(), b, {"c": d}, ("acc", snode("WHILE_STMT", v.t, ("leaf", "s"))) if okc else REJ)

            def b(r, o=o):
                return r.ast("root", "AST_FOR_STMT", [r.part("i", stm), r.ast("cs", "AST_EXPR_STMT", [o.part(r)]),
                                                      r.part("n", stm), r.part("s", stm)])
            yield mk("FOR(%s)" % o.key(), b, {"c": d},
                     ("acc", snode("FOR_STMT", ("leaf", "i"), snode("EXPR_STMT", v.t), ("leaf", "n"), ("leaf", "s")))
                     if okc else REJ, inline=("AST_EXPR_STMT",))

            def b(r, o=o):
                return r.ast("root", "AST_SWITCH_STMT", [o.part(r), r.part("s", stm)])
            yield mk("SWITCH(%s)" % o.key(), b, {"c": d},
                     ("acc", snode("SWITCH_STMT", cast(v, promote(v.d)).t, ("leaf", "s"))) if is_int(v.d) else REJ)

            def b(r, o=o):
                return r.ast("root", "AST_EXPR_STMT", [o.part(r)])
            yield mk("EXPR(%s)" % o.key(), b, {"c": d}, ("acc", snode("EXPR_STMT", v.t)))
    for rd in ["void"] + INTS + PTRS:
        for d in [None] + TYPES:
            o = Opd("c", simple_kind(d), d) if d else None
            v = decay(o.val()) if d else None
            if rd == "void" or d is None:
                e = ("acc", snode("RET_STMT")) if (rd == "void") == (d is None) and rd == "void" else REJ
            else:
                e = assignable(rd, v.d)
                if e == ACC:
                    e = ("acc", snode("RET_STMT", cast(v, rd).t))

            def b(r, o=o):
                return r.ast("root", "AST_RET_STMT", [o.part(r)] if o else [])
            yield mk("RETURN(%s; %s)" % (d_str(norm_d(rd)), o.key() if o else ""), b, {"c": d}, e,
                     outer=lambda r, rd=rd: {"return_dtype": r.lab.dt(rd)})


def close_types():
    """types that differ in one place only"""
    out = [("fn", ("int",) * n, "int") for n in range(4)]
    for i in range(3):
        for x in ("char", "uint", P_("int")):
            p = ["int"] * 3
            p[i] = x
            out.append(("fn", tuple(p), "int"))
    out += [("fn", ("int",) * 3, x) for x in ("void", "long", P_("int"))]
    out += [("fn", ("int", P_(("fn", ("int", x), "int"))), "int") for x in ("int", "long")]
    out += [("fn", ("int",), P_(("fn", (x,), "int"))) for x in ("int", "char")]
    out += [("arr", "int", 2), ("arr", "char", 2), ("arr", ("arr", "int", 2), 2), ("arr", ("arr", "int", 3), 2), ("arr", P_("int"), 2)]
    out += [("struct", "R", 8, 4), S, P_(P_("char")), P_(P_(P_("int"))), P_(S), P_(("struct", "R", 8, 4))]
    out += ["ulong", "llong"]
    return [P_(d) for d in out]


def close_instances():
    C = close_types()
    for a in C:
        for b in C:
            l, r = Opd("l", "id", a), Opd("r", "call", b)
            yield expr("ASSIGN(%s, %s)" % (l.key(), r.key()), "AST_ASSIGN_EXPR", [l, r], spec_assign(l.val(), r.val()))
            for op in ("EQUAL", "SUB"):
                yield expr("%s(%s, %s)" % (op, l.key(), r.key()), "AST_%s_EXPR" % op, [l, r], spec_binary(op, l.val(), r.val())[0])
            o = [Opd("c", "call", "int"), Opd("a", "call", a), Opd("b", "call", b)]
            yield expr("COND(%s, %s, %s)" % tuple(x.key() for x in o), "AST_COND_EXPR", o, spec_cond(*[x.val() for x in o]))
            for f, args in ((Opd("f", "id", ("fn", (a,), "int")), [Opd("a0", "call", b)]),
                            (Opd("f", "id", ("fn", ("int", "char", a), "int")), [Opd("a0", "lit", "int"), Opd("a1", "call", "int"), Opd("a2", "call", b)])):
                def build(r, f=f, args=args):
                    return r.ast("root", "AST_CALL_EXPR", [f.part(r), r.ast("args", "AST_ARG_LIST", [x.part(r) for x in args])])
                lf = {x.name: x.d for x in args}
                lf["f"] = f.d
                yield Inst("CALL(%s; %s)" % (f.key(), ", ".join(x.key() for x in args)), "resolve_expr", build, lf, spec_call(f.val(), [x.val() for x in args]))
            o = Opd("c", "call", b)
            e = assignable(a, b)
            if e == ACC:
                e = ("acc", snode("RET_STMT", cast(o.val(), a).t))
            yield Inst("RETURN(%s; %s)" % (d_str(norm_d(a)), o.key()), "resolve_stmt", lambda r, o=o: r.ast("root", "AST_RET_STMT", [o.part(r)]), {"c": b}, e,
                       lambda r, a=a: {"return_dtype": r.lab.dt(a)}, ())


def all_instances(tier="quick"):
    for x in close_instances():
        yield x
    for k, ak, o, e in (x for g in (binary_instances(), assign_instances(), unary_instances(), cond_instances(),
                                    subscript_instances()) for x in g):
        yield expr(k, ak, o, e)
    for g in (cast_instances(), sizeof_type_instances(), call_instances(), member_instances(), primary_instances(), stmt_instances()):
        for x in g:
            yield x


def preserving(a, b):
    """conversion from a to b keeps every value"""
    if not (is_int(a) and is_int(b)):
        return False
    if a[0] == "u":
        return SIZE[b] > SIZE[a] or (b[0] == "u" and SIZE[b] == SIZE[a])
    return b[0] != "u" and SIZE[b] >= SIZE[a]


def norm_tree(t, leaf_d):
    """drops casts that cannot matter: to the type the operand has anyway, value preserving casts below another cast, inner casts
    below a narrowing one, and conversions of shift counts"""
    if not isinstance(t, tuple) or not t or t[0] == "leaf":
        return t

    def td(c):
        return norm_d(leaf_d.get(c[1])) if c[0] == "leaf" else c[1]
    ch = [norm_tree(c, leaf_d) if isinstance(c, tuple) and c and c[0] not in ("name", "int", "str", "strid") else c for c in t[2:]]
    if t[0] == "CAST_EXPR" and len(ch) == 1:
        c = ch[0]
        if td(c) == t[1]:
            return c
        if c[0] == "CAST_EXPR":
            d0, d1, d2 = td(c[2]), c[1], t[1]
            if preserving(d0, d1) or (is_int(d1) and is_int(d2) and is_int(d0) and SIZE[d2] <= SIZE[d1]):
                return norm_tree(("CAST_EXPR", d2, c[2]), leaf_d)
    if t[0] in ("LSHIFT_EXPR", "RSHIFT_EXPR") and len(ch) == 2:
        while ch[1][0] == "CAST_EXPR":
            ch[1] = ch[1][2]
    return tuple([t[0], t[1]] + ch)


def leaves(t):
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] == "leaf":
        return [t[1]]
    return [x for c in t[2:] if isinstance(c, tuple) for x in leaves(c)]

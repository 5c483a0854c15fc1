"""Declarations in the semantic stage: syntax specs, a reference evaluator (C11 6.7) and the abstract run."""
from rules.res_common import *
from rules.typing import is_int, is_ptr, is_struct, is_fn, is_arr, sizeof, SIZE


class Rej(Exception):
    pass


class Free(Exception):
    pass


def rup(x, a):
    return (x + a - 1) // a * a if a else x


def t_size(d):
    if is_int(d):
        return SIZE[d]
    if is_ptr(d):
        return 8
    if is_arr(d):
        return d[2] * t_size(d[1])
    if is_struct(d):
        return d[2]
    raise ValueError(d)


def t_align(d):
    if is_arr(d):
        return t_align(d[1])
    if is_struct(d):
        return d[3]
    return t_size(d)


def incomplete(d):
    return d == "void" or (is_struct(d) and d[2] == 0) or (is_arr(d) and incomplete(d[1]))


def layout(ms):
    """[(name, type)] -> (size, align, [(name, offset, type)])"""
    off, al, out = 0, 0, []
    for n, d in ms:
        a = t_align(d)
        off = rup(off, a)
        out.append((n, off, d))
        off += t_size(d)
        al = max(al, a)
    return rup(off, al), al, out


def struct_of(name, ms):
    """complete structure type, as a use of the tag shows it (name) or as the tag table keeps it (no name)"""
    size, al, lay = layout(ms)
    return ("struct", name, size, al, None if name is not None else tuple(lay))


class World:
    """what is declared, innermost scope last: ordinary names and tags"""

    def __init__(self, syms=(), tags=()):
        self.syms = [dict(x) for x in syms] or [{}]
        self.tags = [dict(x) for x in tags] or [{}]
        while len(self.tags) < len(self.syms):
            self.tags.append({})

    def copy(self):
        return World(self.syms, self.tags)

    def find(self, n):
        for t in reversed(self.syms):
            if n in t:
                return t[n]

    def tag(self, n):
        for t in reversed(self.tags):
            if n in t:
                return t[n]


# ------------------------------------------------------------------ reference
COMBOS = {("void",): "void", ("char",): "char", ("int",): "int", ("long",): "long", ("int", "long"): "long", ("long", "long"): "llong",
          ("int", "long", "long"): "llong", ("unsigned",): "uint", ("int", "unsigned"): "uint", ("long", "unsigned"): "ulong",
          ("int", "long", "unsigned"): "ulong", ("long", "long", "unsigned"): "ullong", ("int", "long", "long", "unsigned"): "ullong"}


def ref_specs(W, specs, storage=True):
    """-> (typedef?, type)"""
    td = specs.count("typedef")
    rest = [x for x in specs if x != "typedef"]
    if td > 1:
        raise Free
    plain = [x for x in rest if isinstance(x, str)]
    if len(plain) == len(rest):
        d = COMBOS.get(tuple(sorted(plain)))
        if d is None:
            if sorted(plain) == ["char", "unsigned"]:
                raise Free                      # C, but not part of the supported language
            raise Rej
        return bool(td), d
    if len(rest) > 1:
        raise Rej
    x = rest[0]
    if x[0] == "tdname":
        s = W.find(x[1])
        d = s[1]
        if is_struct(d) and d[2] == 0:
            t = W.tag(d[1])
            if t is not None and t[0] == "struct":
                d = struct_of(d[1], t[1])
        return bool(td), d
    if x[0] == "struct":
        if x[2] is None:
            t = W.tag(x[1])
            if t is not None and t[0] != "struct":
                raise Rej
            return bool(td), struct_of(x[1], t[1]) if t is not None else ("struct", x[1], 0, 0, None)
        ms = []
        for sp, ds in x[2]:
            _, base = ref_specs(W, sp)
            for dv, name in ds:
                d = ref_declor(W, base, dv)
                if incomplete(d) or is_fn(d):
                    raise Rej
                ms.append((name, d))
        if len({n for n, _ in ms}) < len(ms):
            raise Rej
        if x[1] is None:
            return bool(td), struct_of(None, ms)
        if x[1] in W.tags[-1]:
            raise Rej
        W.tags[-1][x[1]] = ("struct", ms)
        W.declared.append((x[1], struct_of(None, ms)))
        return bool(td), struct_of(x[1], ms)
    if x[0] == "enum":
        if x[2] is None:
            t = W.tag(x[1])
            if t is not None and t[0] != "enum":
                raise Rej
            if t is None:
                W.soft = True                   # the existing tests pin that a mere mention of an enumeration is accepted
            return bool(td), "int"
        cur = 0
        for name, val in x[2]:
            if name in W.syms[-1]:
                raise Rej
            if val is not None:
                if isinstance(val, tuple) and val[0] == "nonconst":
                    raise Rej
                cur = val
            W.syms[-1][name] = ("int", cur)
            cur = inc(cur)
        if x[1] is not None:
            if x[1] in W.tags[-1]:
                raise Rej
            W.tags[-1][x[1]] = ("enum",)
        return bool(td), "int"
    raise ValueError(x)


def inc(v):
    if isinstance(v, int):
        return v + 1
    if v[0] == "plus":
        return ("plus", v[1], v[2] + 1)
    return ("plus", v, 1)


def ref_declor(W, base, dv):
    """dv: derivations, outermost first"""
    d = base
    for i, x in enumerate(reversed(dv)):
        if x[0] == "ptr":
            d = ("ptr", d)
        elif x[0] == "arr":
            if is_fn(d) or incomplete(d):
                raise Rej
            n = x[1]
            if not isinstance(n, int) or n <= 0:
                raise Rej
            d = ("arr", d, n)
        else:
            if is_fn(d) or is_arr(d):
                raise Rej
            ps = []
            names = set()
            soft = incomplete(d) and d != "void"
            for sp, pdv, pn in x[1]:
                td, pb = ref_specs(W, sp)
                if td:
                    raise Rej
                pd = ref_declor(W, pb, pdv)
                if is_arr(pd):
                    pd = ("ptr", pd[1])
                elif is_fn(pd):
                    pd = ("ptr", pd)
                if pd == "void":
                    raise Rej
                if incomplete(pd):
                    soft = True
                if pn is not None:
                    if pn in names:
                        raise Rej
                    names.add(pn)
                ps.append((pn, pd))
            if soft:
                W.soft = True                     # an incomplete type in a function declaration: no claim
            d = ("fn", tuple(ps), d)
    return d


def ref_decl(W, specs, items):
    """items: [(derivations, name, initialised?)] -> typed tree"""
    td, base = ref_specs(W, specs)
    out = []
    glob = len(W.syms) == 1
    for dv, name, init in items:
        d = ref_declor(W, base, dv)
        if not td and d != "void" and incomplete(d) and glob:
            W.soft = True
        elif not td and incomplete(d):
            raise Rej
        new = ("typedef", d) if td else ("obj", d)
        old = W.syms[-1].get(name)
        if old is not None:
            if old == new and (glob or td or is_fn(d)):
                raise Free
            raise Rej
        W.syms[-1][name] = new
        if init is not None and (td or is_fn(d)):
            raise Rej
        out.append((name, new, init))
    return out


# ------------------------------------------------------------------ abstract run
class DRes(Res):
    n = 0

    def fresh(self, p="n"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def world(self, W):
        L = self.lab
        st, tg = None, None
        for i, (sy, ta) in enumerate(zip(W.syms, W.tags)):
            if i == 0:
                st, tg = self.obj().f[("symbol_table",)], self.obj().f[("tag_table",)]
            else:
                st, tg = L.call("symboltable_enter_scope", st), L.call("tagtable_enter_scope", tg)
            for n, v in sy.items():
                if v[0] == "int":
                    il = L.call("new_signed_iliteral", ev("INTEGER_INT"), v[1])
                    L.call("symboltable_define_integer", st, L.text(n), L.dt("int"), il)
                else:
                    d = self.dt(v[1])
                    if v[0] == "typedef":
                        d = L.call("new_typedef_dtype", d)
                    L.call("symboltable_define_label" if i == 0 else "symboltable_define_memory", st, L.text(n), d)
            for n, v in ta.items():
                if v[0] == "struct":
                    ms = [L.call("new_dstructmember", L.text(m), self.dt(x)) for m, x in v[1]]
                    L.call("tagtable_define_struct", tg, L.text(n), L.vec(ms, "t_dstructmember"))
                else:
                    L.call("tagtable_define_enum", tg, L.text(n), L.vec([], "t_denummember"))
        o = self.obj()
        o.f[("symbol_table",)], o.f[("tag_table",)] = st, tg
        if len(W.syms) == 1:
            o.f[("scope_srt",)] = o.f[("trans_unit_srt",)]

    def part_dt(self, L, d):
        return self.dt(d, L)

    def dt(self, d, L=None):
        L = L or self.lab
        if isinstance(d, tuple):
            if d[0] == "ptr":
                return L.call("new_pointer_dtype", self.dt(d[1], L))
            if d[0] == "arr":
                return L.call("new_array_dtype", self.dt(d[1], L), d[2])
            if d[0] == "struct" and d[1] is not None:
                return L.call("new_named_struct_dtype", L.text(d[1]), d[2], d[3])
            if d[0] == "struct":
                ms = [L.call("new_dstructmember", L.text(m), self.dt(x, L)) for m, _, x in d[4]]
                return L.call("new_unnamed_struct_dtype", L.vec(ms, "t_dstructmember"))
            if d[0] == "fn":
                ps = [L.call("new_named_dparam", L.text(n), self.dt(x, L)) if n is not None else L.call("new_unnamed_dparam", self.dt(x, L))
                      for n, x in d[1]]
                return L.call("new_function_dtype", L.vec(ps, "t_dparam"), self.dt(d[2], L))
        return L.dt(d)

    # ---- syntax
    def a_specs(self, specs, kind="AST_DECL_SPECS"):
        out = []
        for x in specs:
            if x == "typedef":
                out.append(self.ast(self.fresh(), "AST_STG_TYPEDEF"))
            elif isinstance(x, str):
                out.append(self.ast(self.fresh(), "AST_TYPE_" + x.upper()))
            elif x[0] == "tdname":
                out.append(self.ast(self.fresh(), "AST_TYPEDEF_NAME", (), ident_name=self.lab.text(x[1])))
            elif x[0] == "struct":
                ch = []
                if x[1] is not None:
                    ch.append(self.ast(self.fresh(), "AST_STRUCT_NAME", (), ident_name=self.lab.text(x[1])))
                if x[2] is not None:
                    ds = []
                    for sp, dl in x[2]:
                        l = self.ast(self.fresh(), "AST_STRUCT_DECLOR_LIST", [self.a_declor(dv, n) for dv, n in dl])
                        ds.append(self.ast(self.fresh(), "AST_STRUCT_DECL", [self.a_specs(sp, "AST_SPEC_QUAL_LIST"), l]))
                    ch.append(self.ast(self.fresh(), "AST_STRUCT_DECL_LIST", ds))
                out.append(self.ast(self.fresh(), "AST_TYPE_STRUCT", ch))
            elif x[0] == "enum":
                ch = []
                if x[1] is not None:
                    ch.append(self.ast(self.fresh(), "AST_ENUM_NAME", (), ident_name=self.lab.text(x[1])))
                if x[2] is not None:
                    es = []
                    for n, v in x[2]:
                        c = [self.ast(self.fresh(), "AST_ENUM_CONST", (), ident_name=self.lab.text(n))]
                        if v is not None:
                            c.append(self.const(self.fresh("ev"), v))
                        es.append(self.ast(self.fresh(), "AST_ENUMOR", c))
                    ch.append(self.ast(self.fresh(), "AST_ENUMOR_LIST", es))
                out.append(self.ast(self.fresh(), "AST_TYPE_ENUM", ch))
        return self.ast(self.fresh(), kind, out)

    def const(self, name, v):
        if v == "fail":
            return self.part(name, Fail(1), "AST_INT_EXPR")
        if isinstance(v, tuple) and v[0] == "nonconst":
            return self.part(name, Ok(v[1], v[2]), "AST_IDENT_EXPR")
        return self.part(name, Ok("SRT_ILITERAL_EXPR", "int", value=v), "AST_INT_EXPR")

    def a_declor(self, dv, name):
        x = self.ast(self.fresh(), "AST_ABS_DECLOR") if name is None else \
            self.ast(self.fresh(), "AST_IDENT_DECLOR", (), ident_name=self.lab.text(name))
        for d in reversed(dv):
            if d[0] == "ptr":
                x = self.ast(self.fresh(), "AST_PTR_DECLOR", [x])
            elif d[0] == "arr":
                x = self.ast(self.fresh(), "AST_ARRAY_DECLOR", [x, self.const(self.fresh("size"), d[1])])
            else:
                ps = [self.ast(self.fresh(), "AST_PARAM_DECL", [self.a_specs(sp), self.a_declor(pdv, pn)]) for sp, pdv, pn in d[1]]
                if not d[1]:
                    ps = [self.ast(self.fresh(), "AST_PARAM_DECL", [self.a_specs(["void"]), self.a_declor((), None)])]
                x = self.ast(self.fresh(), "AST_FUNC_DECLOR", [x, self.ast(self.fresh(), "AST_PARAM_LIST", ps)])
        return x

    def a_decl(self, specs, items, inits=None):
        ch = [self.a_specs(specs)]
        if items:
            ds = []
            for dv, name, init in items:
                c = [self.a_declor(dv, name)]
                if init is not None:
                    c.append(self.a_init(init))
                ds.append(self.ast(self.fresh(), "AST_INIT_DECLOR", c))
            ch.append(self.ast(self.fresh(), "AST_INIT_DECLOR_LIST", ds))
        return self.ast("root", "AST_DECL", ch)

    def a_init(self, i):
        """('e', part name, Ok|Fail) | ('s', text, with zero) | list"""
        if isinstance(i, list):
            return self.ast(self.fresh(), "AST_INIT_LIST", [self.a_init(x) for x in i])
        if i[0] == "e":
            return self.part(i[1], i[2], "AST_IDENT_EXPR")
        sl = self.lab.call("new_sliteral", self.lab.text(i[1]), len(i[1]) + 1)
        return self.ast(i[2] if len(i) > 2 else self.fresh(), "AST_STRING_EXPR", (), sliteral=sl)


def dt_full(fz):
    """frozen DType -> full spec form (layout of structures, parameter names)"""
    f = fields(fz)
    if "type" not in f:
        return ("?", show(fz))
    n = ename("DTypeType", f["type"])
    if n == "DTYPE_POINTER":
        return ("ptr", dt_full(fields(f["dpointer"])["to_dtype"]))
    if n == "DTYPE_ARRAY":
        a = fields(f["darray"])
        return ("arr", dt_full(a["of_dtype"]), a["size"])
    if n == "DTYPE_TYPEDEF":
        return ("typedef", dt_full(fields(f["dtypedef"])["defined_dtype"]))
    if n == "DTYPE_STRUCT":
        a = fields(f["dstruct"])
        ms = a.get("members", 0)
        if ms != 0:
            ms = tuple((txt(fields(p[1])["name"]), fields(p[1])["memory_offset"], dt_full(fields(p[1])["dtype"])) for p in ms[1])
        nm = txt(a.get("name", 0))
        return ("struct", nm if nm != 0 else None, a.get("nbytes"), a.get("alignment"), ms if ms != 0 else None)
    if n == "DTYPE_FUNCTION":
        a = fields(f["dfunction"])
        ps = a["params"]
        pl = tuple(((txt(fields(p[1]).get("name", 0)) or None), dt_full(fields(p[1])["dtype"])) for p in ps[1])
        return ("fn", pl, dt_full(a["return_dtype"]))
    if n == "DTYPE_ENUM":
        return ("enum",)
    return dt_show(fz)


def d_full_str(d):
    if not isinstance(d, tuple):
        return str(d)
    if d[0] == "ptr":
        return "pointer to " + d_full_str(d[1])
    if d[0] == "arr":
        return "array of %s %s" % (d[2], d_full_str(d[1]))
    if d[0] == "typedef":
        return "type name for " + d_full_str(d[1])
    if d[0] == "struct":
        return "struct %s(size %s, align %s%s)" % (d[1] + " " if d[1] else "", d[2], d[3],
                                                   "; " + ", ".join("%s@%s" % m[:2] for m in d[4]) if d[4] else "")
    if d[0] == "fn":
        return "function(%s) returning %s" % (", ".join("%s%s" % (d_full_str(x), " " + n if n else "") for n, x in d[1]), d_full_str(d[2]))
    return str(d)


def read_scopes(E, s, v, mapf):
    """chain of scope tables -> list of association lists, outermost first"""
    out = []
    while isinstance(v, tuple) and v[0] == "p":
        o = s.objs.get(v[1])
        if o is None or o.freed:
            return None
        m = o.f.get((mapf,))
        mo = s.objs.get(m[1])
        if mo is None or mo.freed:
            return None
        out.append(list(mo.x))
        v = o.f.get(("outer_scope",), 0)
    return list(reversed(out))


def kname(k):
    """the name behind a map key"""
    if isinstance(k, tuple) and k[0] == "k":
        return "".join(x if isinstance(x, str) else show(x) for x in k[1]) if isinstance(k[1], tuple) else k[1]
    return show(k)


def norm_val(v):
    """an enumerator's value is an int: truncations to int change nothing"""
    if isinstance(v, tuple) and v[0] == "trunc" and v[1] >= 32:
        return norm_val(v[3])
    if isinstance(v, tuple) and v[0] == "lin" and len(v[2]) == 1 and v[2][0][1] == 1:
        return ("plus", norm_val(v[2][0][0]), v[1])
    return v


def symbols(E, s, v):
    sc = read_scopes(E, s, v, "symbol_map")
    if sc is None:
        return None
    out = []
    for t in sc:
        d = {}
        for e in t:
            f = fields(freeze(E, s, e[1]))
            n = kname(e[0])
            if ename("SymbolType", f["type"]) == "SYMBOL_INT":
                il = fields(f["iliteral"])
                d[n] = ("int", norm_val(il.get("signed_value")))
            else:
                x = dt_full(f["dtype"])
                d[n] = x if x[0] == "typedef" else ("obj", x)
        out.append(d)
    return out


def tags(E, s, v):
    sc = read_scopes(E, s, v, "map")
    if sc is None:
        return None
    out = []
    for t in sc:
        d = {}
        for e in t:
            fz = freeze(E, s, e[1])
            x = dt_full(fz)
            d[kname(e[0])] = x if x[0] == "struct" else ("enum",)
        out.append(d)
    return out


def ref_tags(W):
    return [{n: struct_of(None, v[1]) if v[0] == "struct" else ("enum",) for n, v in t.items()} for t in W.tags]


# ------------------------------------------------------------------ one declaration, judged
def decl_nodes(fz):
    """typed tree of a declaration -> [(name, type, initializer or None)] or a complaint"""
    f = fields(fz)
    if ename("SrtType", f["type"]) != "SRT_DECL_LIST":
        return "the result is a %s" % ename("SrtType", f["type"])
    out = []
    for p in f["children"][1]:
        g = fields(p[1])
        if ename("SrtType", g["type"]) != "SRT_INIT_DECL":
            return "the list contains a %s" % ename("SrtType", g["type"])
        ch = g["children"][1]
        x = ident_decl(ch[0][1])
        if isinstance(x, str):
            return x
        out.append(x + (ch[1][1] if len(ch) > 1 else None,))
        if len(ch) > 2:
            return "an initialised declarator has %d parts" % len(ch)
    return out


def ident_decl(fz):
    h = fields(fz)
    if ename("SrtType", h["type"]) != "SRT_IDENT_DECL":
        return "a declarator resolves to a %s" % ename("SrtType", h["type"])
    return (txt(h.get("ident_name", 0)), dt_full(h["dtype"]))


def tag_decls(R, o):
    """structures announced in the enclosing scope during the analysis"""
    sc = R.before[("scope_srt",)]
    f = fields(freeze(R.E, o.s, sc))
    out = []
    for p in f["children"][1]:
        g = fields(p[1])
        if ename("SrtType", g["type"]) == "SRT_TAG_DECL":
            out.append((txt(g["ident_name"]), dt_full(g["dtype"])))
        else:
            out.append(("?", ename("SrtType", g["type"])))
    return out


def reference(W, fn):
    """-> ('acc', value) | ('rej',) | ('free',); the world is updated"""
    W.soft, W.declared = False, []
    try:
        v = fn(W)
    except Rej:
        return ("free",) if W.soft else ("rej",)
    except Free:
        return ("free",)
    return ("free",) if W.soft else ("acc", v)


def common_complaints(r, o):
    """whatever was declared: the resolver's bookkeeping is back where it was"""
    bad = []
    d = o.state_diff()
    if d:
        bad.append("the resolver's %s are not restored" % ", ".join(d))
    if (o.srt_v == 0) == (o.errs_v == 0):
        bad.append("both or neither of a result and errors are returned")
    if o.errs_v != 0 and not o.errs:
        bad.append("rejected without a diagnostic")
    return bad


def diff_tables(what, got, want):
    if got is None:
        return ["the %s table was released" % what]
    if len(got) != len(want):
        return ["%d %s scopes are open afterwards, not %d" % (len(got), what, len(want))]
    bad = []
    for i, (g, w) in enumerate(zip(got, want)):
        for n in sorted(set(g) | set(w)):
            if g.get(n) != w.get(n):
                bad.append("%s '%s' in scope %d is %s, expected %s" % (
                    what, n, i, d_full_str(g[n]) if n in g and g[n][0] != "obj" else d_full_str(g[n][1]) if n in g else "not declared",
                    d_full_str(w[n]) if n in w and w[n][0] != "obj" else d_full_str(w[n][1]) if n in w else "none"))
    return bad


def table_complaints(r, o, W):
    ob = o.s.objs[r.res[1]]
    return diff_tables("symbol", symbols(r.E, o.s, ob.f[("symbol_table",)]), W.syms) + \
        diff_tables("tag", tags(r.E, o.s, ob.f[("tag_table",)]), ref_tags(W))


def judge_decl(W0, specs, items, world=None):
    """-> (verdict, complaints, run, outcomes)"""
    W = W0.copy()
    e = reference(W, lambda w: ref_decl(w, specs, items))
    r = DRes("resolve_decl")
    r.world(W0)
    root = r.a_decl(specs, items)
    outs = r.run(root)
    if e[0] == "free":
        return "free", [], r, outs
    bad = []
    if not outs:
        bad.append("never returns: %s" % why_dead(r))
    for o in outs:
        bad += common_complaints(r, o)
        if e[0] == "rej":
            if o.srt is not None:
                bad.append("accepted, but C11 forbids it")
            continue
        if o.srt is None:
            bad.append("rejected (%s), but it is valid" % "; ".join(map(str, o.errs or ["?"])))
            continue
        got = decl_nodes(o.srt)
        want = e[1]
        if isinstance(got, str):
            bad.append(got)
        else:
            g = [(n, d) for n, d, _ in got]
            w = [(n, d if d[0] == "typedef" else d[1]) for n, d, _ in want]
            if g != w:
                for (gn, gd), (wn, wd) in zip(g, w):
                    if (gn, gd) != (wn, wd):
                        bad.append("declares %s as %s, expected %s as %s" % (gn, d_full_str(gd), wn, d_full_str(wd)))
                if len(g) != len(w):
                    bad.append("%d declarators become %d" % (len(w), len(g)))
        bad += table_complaints(r, o, W)
        td = tag_decls(r, o)
        if td != W.declared:
            bad.append("announces the structures %s, expected %s" % ([(n, d_full_str(d)) for n, d in td], [(n, d_full_str(d)) for n, d in W.declared]))
    return e[0], bad, r, outs


def why_dead(r):
    return "; ".join(sorted({"%s at %s:%s" % (w, n.file, n.line) for w, s, n in r.E.terminated})[:2]) or "no path"


def show_dv(dv, name):
    t = name or ""
    prev = None
    for d in dv:
        if d[0] == "ptr":
            t = "*" + t
        else:
            if prev == "ptr":
                t = "(%s)" % t
            t += "[%s]" % (d[1],) if d[0] == "arr" else "(%s)" % (", ".join("%s %s" % (show_specs(sp), show_dv(pd, pn)) for sp, pd, pn in d[1]) or "void")
        prev = d[0]
    return t


def show_specs(specs):
    out = []
    for x in specs:
        if isinstance(x, str):
            out.append(x)
        elif x[0] == "tdname":
            out.append(x[1])
        else:
            b = ""
            if x[2] is not None and x[0] == "struct":
                b = "{%s}" % " ".join("%s %s;" % (show_specs(sp), ", ".join(show_dv(dv, n) for dv, n in ds)) for sp, ds in x[2])
            elif x[2] is not None:
                b = "{%s}" % ", ".join(n if v is None else "%s=%s" % (n, v) for n, v in x[2])
            out.append("%s %s%s" % (x[0], x[1] or "", b))
    return " ".join(out)


def show_decl(specs, items):
    return "%s %s;" % (show_specs(specs), ", ".join(show_dv(dv, n) + (" = ..." if i is not None else "") for dv, n, i in items))


S_ = [("a", "char"), ("b", "int")]
STD = World([{"TI": ("typedef", "int"), "TS": ("typedef", struct_of("S", S_)), "TF": ("typedef", ("fn", (("p", "int"),), "int")),
              "TA": ("typedef", ("arr", "int", 3)), "TV": ("typedef", "void"), "TP": ("typedef", ("ptr", struct_of("S", S_))),
              "TT": ("typedef", ("struct", "T", 0, 0, None)), "TU": ("typedef", ("struct", "U", 0, 0, None)),
              "g": ("obj", "int"), "EC": ("int", 7), "fn1": ("obj", ("fn", (("p", "int"),), "int"))}],
            [{"S": ("struct", S_), "U": ("struct", [("x", "long"), ("y", "char")]), "E": ("enum",)}])


def inner(W, *levels):
    """W with further scopes: levels are (symbols, tags)"""
    return World(W.syms + [x[0] for x in levels], W.tags + [x[1] for x in levels])

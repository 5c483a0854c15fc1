"""P23: a copy is complete and separate, a release returns everything exactly once."""
import itertools
import os
from rules.back_common import *
from report import pmap

META = {"level": "other", "explanation":
        "Every copy and delete function of the compiler's data (syntax trees, semantic trees, data types, tokens, literals, symbols and scopes, intermediate and x86-64 code, live ranges, basic blocks, pairs) is interpreted "
        "abstractly on values made by the constructors, with every optional part present and absent and every element type nested in every other. The copy has to have the same content in every field, share no storage "
        "with the original, and stay whole when the original is released; a release has to give back every block the value owns, once, and nothing else.",
        "assumptions": ["vectors, maps and sets copy and release their elements through their element type (judged by P25)", "types that still wait for their inner type are not copied"]}


REAL_VECTORS = True


class C:
    """one analysis with the real copy and delete functions"""

    def __init__(self):
        self.E = Engine(prog(), max_states=100)
        E = self.E
        for n in list(E.models):
            if E.models[n] in (models.generic_copy, models.generic_delete):
                E.models.pop(n)
        for n in ("sliteral_copy", "iliteral_copy"):
            if n not in models.BASE_MODELS:
                E.models.pop(n, None)
        E.maxrec = 40
        E.check_mem = True
        E.check_bounds = True
        models.real_containers(E, REAL_VECTORS)
        self.lab = Lab(E, State())
        self.n = 0

    def t(self, s="n"):
        """a fresh text, different from every other"""
        self.n += 1
        return self.lab.call("new_string", ("s", "%s%d" % (s, self.n)))

    def i(self):
        self.n += 1
        return self.n * 3 + 100

    def vec(self, tname, items):
        L = self.lab
        v = L.call("new_vector", ("p", global_oid(tname), ()))
        for x in items:
            L.call("vector_push", v, x)
        return v

    def chars(self, bs):
        oid = self.E.new_heap(self.lab.s, "heap", None, None, "literal")
        o = self.lab.s.objs[oid]
        o.f[("#size",)] = len(bs)
        for i, b in enumerate(bs):
            o.f[(i,)] = b if b < 128 else b - 256
        return ("p", oid, ())


def call(n, *mk):
    def f(c):
        args = [m(c) if callable(m) else ev(m) if isinstance(m, str) else m for m in mk]
        return c.lab.call(n, *args)
    return f


def txt(c):
    return c.t()


def num_(c):
    return c.i()


def vec(t, *mk):
    return lambda c: c.vec(t, [m(c) for m in mk])


def lit(kind="INTEGER_INT", un=False):
    return call("new_unsigned_iliteral" if un else "new_signed_iliteral", kind, num_)


def slit(bs=b"ab\0"):
    return lambda c: c.lab.call("new_sliteral", c.chars(bs), len(bs))


# ---- values of every class: (name, copy function, delete function, maker)
def dtypes(depth):
    base = [("void", call("new_void_dtype"))]
    for n in enum_of("DTypeType"):
        if any(x in n for x in ("CHAR", "INT", "LONG", "SHORT")):
            base.append((n, call("new_integer_dtype", n)))
    base += [("struct tag", call("new_named_struct_dtype", txt, num_, num_)), ("enum tag", call("new_named_enum_dtype", txt))]
    mem = [call("new_denummember", txt, num_) for _ in range(3)]
    base += [("enum of %d" % k, call("new_unnamed_enum_dtype", vec("t_denummember", *mem[:k]))) for k in (1, 3)]
    lvl = base
    out = list(base)
    for _ in range(depth):
        nxt = []
        for n, m in lvl:
            nxt += [("pointer to " + n, call("new_pointer_dtype", m)), ("array of " + n, call("new_array_dtype", m, num_)),
                    ("function returning " + n, call("new_function_dtype", vec("t_dparam"), m)),
                    ("function of unnamed " + n, call("new_function_dtype", vec("t_dparam", call("new_unnamed_dparam", m)), call("new_void_dtype"))),
                    ("function of named " + n, call("new_function_dtype", vec("t_dparam", call("new_named_dparam", txt, m), call("new_unnamed_dparam", m)), m)),
                    ("typedef of " + n, call("new_typedef_dtype", m))]
            if "function" not in n and n != "void" and "struct tag" not in n:
                nxt.append(("struct of " + n, call("new_unnamed_struct_dtype", vec("t_dstructmember", call("new_dstructmember", txt, call("new_integer_dtype", "DTYPE_CHAR")), call("new_dstructmember", txt, m)))))
        out += nxt
        lvl = nxt
    return out


def enum_of(n):
    return [x for x, _ in prog().enumtypes.get(n, ())]


def values(tier):
    D = dtypes(3 if tier == "thorough" else 2)
    for n, m in D:
        yield "type " + n, "dtype_copy", "delete_dtype", m
    dshort = [D[0], D[1], D[-1]] + [d for d in D if d[0] in ("pointer to void", "struct of DTYPE_INT")]
    for k, un in itertools.product(enum_of("IntegerLiteralType"), (False, True)):
        yield "number %s %s" % (k, un), "iliteral_copy", "delete_iliteral", lit(k, un)
    for bs in (b"\0", b"a\0", b"\0\0\0", b"a\0b\xff\0", b"abcdefghijklmnop\0"):
        yield "string %s" % bs.hex(), "sliteral_copy", "delete_sliteral", slit(bs)
    for k in enum_of("CTokenType")[:3]:
        yield "token " + k, "ctoken_copy", "delete_ctoken", call("new_ctoken", k)
    yield "identifier token", "ctoken_copy", "delete_ctoken", call("new_identifier_ctoken", enum_of("CTokenType")[0], txt)
    yield "number token", "ctoken_copy", "delete_ctoken", call("new_iliteral_ctoken", enum_of("CTokenType")[0], lit())
    yield "string token", "ctoken_copy", "delete_ctoken", call("new_sliteral_ctoken", enum_of("CTokenType")[0], slit())
    # trees
    at = enum_of("AstType")
    st = enum_of("SrtType")

    def ast(c, depth=2, w=3, k=[0]):
        k[0] += 1
        ty = ev(at[k[0] % len(at)])
        if depth == 0:
            return [lambda: c.lab.call("new_identifier_ast", ty, c.t()), lambda: c.lab.call("new_iliteral_ast", ty, lit()(c)),
                    lambda: c.lab.call("new_sliteral_ast", ty, slit()(c)), lambda: c.lab.call("new_ast", ty, 0)][k[0] % 4]()
        return c.lab.call("new_ast", ty, w, *[ast(c, depth - 1, w - 1) for _ in range(w)])

    def srt(c, depth=2, w=3, k=[0]):
        k[0] += 1
        ty = ev(st[k[0] % len(st)])
        d = dshort[k[0] % len(dshort)][1]
        if depth == 0:
            return [lambda: c.lab.call("new_identifier_srt", ty, d(c), c.t()), lambda: c.lab.call("new_iliteral_srt", d(c), lit()(c)),
                    lambda: c.lab.call("new_sliteral_srt", d(c), slit()(c)), lambda: c.lab.call("new_string_srt", ty, d(c), c.i()),
                    lambda: c.lab.call("new_srt", ty, 0)][k[0] % 5]()
        kids = [srt(c, depth - 1, w - 1) for _ in range(w)]
        return c.lab.call("new_dtyped_srt", ty, d(c), w, *kids) if k[0] % 2 else c.lab.call("new_srt", ty, w, *kids)

    for nm, mk in (("ast", ast), ("srt", srt)):
        for d, w in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (2, 3), (3, 3)):
            yield "%s %d deep %d wide" % (nm, d, w), nm + "_copy", "delete_" + nm, lambda c, mk=mk, d=d, w=w: mk(c, d, w, [w])
    # symbols and scopes
    for n, m in dshort:
        syms = [("label", call("new_label_symbol", txt, m)), ("memory", call("new_memory_symbol", txt, m, num_)), ("integer", call("new_integer_symbol", txt, m, lit()))]
        for k, s_ in syms:
            yield "symbol %s %s" % (k, n), "symbol_copy", "delete_symbol", s_

    def scopes(which, n):
        def f(c):
            L = c.lab
            t = L.call("new_" + which)
            for i in range(n):
                if which == "symboltable":
                    L.call("symboltable_define_label", t, c.t(), dshort[i % len(dshort)][1](c))
                    L.call("symboltable_define_memory", t, c.t(), call("new_integer_dtype", "DTYPE_INT")(c))
                    L.call("symboltable_define_integer", t, c.t(), call("new_integer_dtype", "DTYPE_INT")(c), lit()(c))
                else:
                    L.call("tagtable_define_struct", t, c.t(), vec("t_dstructmember", call("new_dstructmember", txt, call("new_integer_dtype", "DTYPE_INT")))(c))
                    L.call("tagtable_define_enum", t, c.t(), vec("t_denummember", call("new_denummember", txt, num_))(c))
                if i + 1 < n:
                    t = L.call(which + "_enter_scope", t)
            return t
        return f

    for w in ("symboltable", "tagtable"):
        for n in (0, 1, 2, 3):
            yield "%s of %d scopes" % (w, n), w + "_copy", "delete_" + w, scopes(w, n)
    # intermediate code
    regs = [call("new_signed_immcreg", num_), call("new_unsigned_immcreg", num_)]
    yield "register", "immcreg_copy", "delete_immcreg", regs[0]
    yield "unsigned register", "immcreg_copy", "delete_immcreg", regs[1]
    opes = []
    for sfx in enum_of("ImmcSuffix"):
        for k in ("arg", "reg"):
            for g in ("signed", "unsigned"):
                opes.append(("%s %s %s" % (g, k, sfx), call("new_%s_%s_immcope" % (g, k), sfx, num_)))
        opes.append(("int " + sfx, call("new_int_immcope", sfx, lit())))
    opes += [("ptr", call("new_ptr_immcope", num_)), ("mem", call("new_mem_immcope", num_)), ("label", call("new_label_immcope", txt)),
             ("label id", call("new_label_immcope_from_id", num_)), ("str", call("new_str_immcope", slit()))]
    for n, m in opes:
        yield "operand " + n, "immcope_copy", "delete_immcope", m
    none = ("none", lambda c: 0)
    sel = [none] + [o for o in opes if o[0] in ("ptr", "label", "str", "int IMMC_SUFFIX_LONG", "unsigned reg IMMC_SUFFIX_BYTE")]
    it = enum_of("ImmcInstType")
    for j, ((a, ma), (b, mb), (d_, md)) in enumerate(itertools.product(sel, repeat=3)):
        yield "instruction %s %s %s" % (a, b, d_), "immc_copy", "delete_immc", call("new_inst_immc", it[j % len(it)], ma, mb, md)
    for pre, en in (("immc", "Immc"), ("x64", "X64")):
        for lt, vis in itertools.product(enum_of(en + "LabelType"), enum_of(en + "Visibility")):
            yield "%s label %s %s" % (pre, lt, vis), pre + "_copy", "delete_" + pre, call("new_label_" + pre, lt, vis, txt)
        for dt in enum_of(en + "DataType"):
            yield "%s data %s" % (pre, dt), pre + "_copy", "delete_" + pre, call("new_str_data_" + pre, dt, slit()) if dt.endswith("STR") else call("new_int_data_" + pre, dt, lit())
    xo = []
    for sfx in enum_of("X64Suffix"):
        xo += [("suffix " + sfx, call("new_suffix_x64ope", sfx)), ("reg " + sfx, call("new_reg_x64ope", sfx, "CX_REG_ID")), ("int " + sfx, call("new_int_x64ope", sfx, lit()))]
    xo += [("ptr", call("new_ptr_x64ope", "R9_REG_ID")), ("jptr", call("new_jptr_x64ope", "R9_REG_ID")), ("mem", call("new_mem_x64ope", num_)),
           ("label", call("new_label_x64ope", txt)), ("jlabel", call("new_jlabel_x64ope", txt))]
    for n, m in xo:
        yield "x64 operand " + n, "x64ope_copy", "delete_x64ope", m
    xs = [none] + [o for o in xo if o[0] in ("ptr", "label", "int X64_SUFFIX_LONG", "reg X64_SUFFIX_BYTE")]
    xi = enum_of("X64InstType")
    for j, ((a, ma), (b, mb)) in enumerate(itertools.product(xs, repeat=2)):
        yield "x64 instruction %s %s" % (a, b), "x64_copy", "delete_x64", call("new_inst_x64", xi[j % len(xi)], ma, mb)

    def live(n):
        def f(c):
            v = c.lab.call("new_liveseq")
            (loc, c.lab.s), = c.E.deref(c.lab.s, v, FAKE)
            p = c.E.read(c.lab.s, (loc[0], loc[1] + ("livenesses",)), None, FAKE)
            for _ in range(n):
                x = c.lab.call("new_liveness", c.i())
                c.lab.call("vector_push", p, x)
            return v
        return f

    yield "liveness", "liveness_copy", "delete_liveness", call("new_liveness", num_)
    for n in (0, 1, 3):
        yield "live ranges %d" % n, "liveseq_copy", "delete_liveseq", live(n)

    def block(n):
        def f(c):
            L = c.lab
            v = L.call("new_basicblock", vec("t_immc", *[call("new_label_immc", "IMMC_LABEL_NORMAL", "IMMC_VIS_NONE", txt)] * n)(c))
            (loc, L.s), = c.E.deref(L.s, v, FAKE)
            for j, fld in enumerate(("input", "output", "succ")):
                p = c.E.read(L.s, (loc[0], loc[1] + (fld,)), None, FAKE)
                for q in range(n + j):
                    L.call("set_add", p, L.call("new_integer", c.i()))
            return v
        return f

    for n in (0, 1, 2):
        yield "basic block %d" % n, "basicblock_copy", "delete_basicblock", block(n)

    def pair(a, b):
        def f(c):
            L = c.lab
            v = L.call("new_pair", ("p", global_oid("t_integer"), ()), ("p", global_oid("t_iliteral"), ()))
            if a:
                L.call("pair_set_first", v, L.call("new_integer", c.i()))
            if b:
                L.call("pair_set_second", v, lit()(c))
            if a > 1:
                L.call("pair_set", v, L.call("new_integer", c.i()), lit()(c))
            return v
        return f

    for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
        yield "pair %d%d" % (a, b), "pair_copy", "delete_pair", pair(a, b)
    # a compiler phase that is made and released
    yield "phase lexer", None, "delete_lexer", call("new_lexer", txt)
    yield "phase parser", None, "delete_parser", call("new_parser", vec("t_ctoken", call("new_identifier_ctoken", enum_of("CTokenType")[0], txt)))
    yield "phase resolver", None, "delete_resolver", call("new_resolver", ast)
    yield "phase immcgen", None, "delete_immcgen", call("new_immcgen", srt)
    yield "phase regalloc", None, "delete_regalloc", call("new_regalloc", vec("t_immc"), num_)
    yield "phase x64gen", None, "delete_x64gen", call("new_x64gen", vec("t_immc"), vec("t_liveseq", live(1)))
    yield "error", "erorr_copy" if prog().func(None, "erorr_copy") else "error_copy", "delete_error", lambda c: c.lab.call("new_error", ("s", "message"))


# ---- comparison
SKIP = ("#size", "#cap")


def owned(s, v, out=None):
    """blocks reachable from v"""
    out = {} if out is None else out
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            if len(x) == 3 and x[0] == "p" and isinstance(x[1], tuple):
                if x[1][0] == "H" and x[1] in s.objs and x[1] not in out:
                    o = s.objs[x[1]]
                    out[x[1]] = o
                    todo.extend(o.f.values())
                    if o.kind in ("vec", "map"):
                        todo.append(o.x)
            else:
                todo.extend(y for y in x if isinstance(y, (tuple, list)))
    return out


def same(s, a, b, path="", seen=None):
    """-> first difference or None"""
    seen = set() if seen is None else seen
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "p" and isinstance(b, tuple) and len(b) == 3 and b[0] == "p":
        if a[1][0] != "H" or b[1][0] != "H":
            return None if a == b else "%s refers to something else" % path
        if a[1] == b[1]:
            return "%s is shared with the original" % path
        if (a[1], b[1]) in seen:
            return None
        seen.add((a[1], b[1]))
        if a[2] != b[2]:
            return "%s points to another place" % path
        oa, ob = s.objs[a[1]], s.objs[b[1]]
        ta, tb = interp.pieces_text(interp.text_of(None, s, a)) if oa.kind == "str" else None, interp.pieces_text(interp.text_of(None, s, b)) if ob.kind == "str" else None
        if oa.kind == "str" or ob.kind == "str":
            if ta is None and oa.kind != "str":
                ta = cells(oa)
            if tb is None and ob.kind != "str":
                tb = cells(ob)
            if ta is None or tb is None:
                raise Undecided("text of %s" % path)
            return None if ta.split("\0")[0] == tb.split("\0")[0] else "%s is %r, not %r" % (path, tb[:30], ta[:30])
        ka = {k for k in oa.f if not k or k[-1] not in SKIP}
        kb = {k for k in ob.f if not k or k[-1] not in SKIP}
        if ka != kb:
            return "%s: %s is set in one only" % (path, sorted(map(str, ka ^ kb))[:2])
        for k in sorted(ka, key=repr):
            d = same(s, oa.f[k], ob.f[k], path + "." + ".".join(map(str, k)), seen)
            if d:
                return d
        if oa.kind in ("vec", "map"):
            return same(s, oa.x, ob.x, path + "[]", seen)
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%s has %d elements, not %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(s, x, y, "%s%d" % (path, i) if path.endswith("[]") else path, seen)
            if d:
                return d
        return None
    return None if a == b else "%s is %s, not %s" % (path, show(b), show(a))


def cells(o):
    out = []
    i = 0
    while (i,) in o.f:
        c = o.f[(i,)]
        if not isinstance(c, int):
            return None
        out.append(chr(c & 255))
        i += 1
    return "".join(out)


def one(R, i, tier):
    name, cp, dl, mk = list(_values(tier))[i]
    c = C()
    E, L = c.E, c.lab
    rule = name.split()[0]
    bad = []
    try:
        if cp is None:
            v = mk(c)
            own = owned(L.s, v)
            L.call(dl, v)
            left = [x for x in own if not L.s.objs[x].freed]
            if left:
                bad.append("releasing leaves the block of %s" % sorted(str(L.s.objs[x].site) for x in left)[0])
            bad += ["memory: %s %s:%s %s" % (f[0], os.path.basename(str(f[1])), f[2], f[4]) for f in E.findings[:2]]
            R.saw(E.visited)
            R.bad(rule, name, dl, "; ".join(bad[:3])) if bad else R.ok(rule, name)
            return
        if prog().func(None, cp) is None or (dl != "free" and prog().func(None, dl) is None):
            R.unk(rule, name, "%s or %s does not exist" % (cp, dl))
            return
        v = mk(c)
        own = owned(L.s, v)
        w = L.call(cp, v)
        mem = lambda: [bad.append("memory: %s %s:%s %s" % (f[0], os.path.basename(str(f[1])), f[2], f[4])) for f in E.findings[:2]]
        if not isinstance(w, tuple):
            bad.append("the copy is %s" % show(w))
        else:
            d = same(L.s, v, w, "copy")
            if d:
                bad.append(d)
            cown = owned(L.s, w)
            shared = set(own) & set(cown)
            if shared:
                bad.append("the copy shares the block of %s" % sorted(str(L.s.objs[x].site) for x in shared)[0])
            for first, a, mine, other in (("original", v, own, cown), ("copy", w, cown, own)):
                st = L.s.fork()
                keep = L.s
                L.s = st
                L.call(dl, a)
                st = L.s
                left = [x for x in mine if not st.objs[x].freed]
                if left:
                    bad.append("releasing the %s leaves the block of %s" % (first, sorted(str(st.objs[x].site) for x in left)[0]))
                hit = [x for x in other if st.objs[x].freed and x not in shared]
                if hit:
                    bad.append("releasing the %s also releases a part of the other" % first)
                L.s = keep
        mem()
    except Undecided as x:
        if E.findings:
            f = E.findings[0]
            bad.append("memory: %s %s:%s %s" % (f[0], f[1], f[2], f[4]))
        else:
            R.unk(rule, name, x)
            R.saw(E.visited)
            return
    R.saw(E.visited)
    if bad:
        R.bad(rule, name, "%s, %s" % (cp, dl), "; ".join(bad[:3]))
    else:
        R.ok(rule, name)


_V = {}


def _values(tier):
    if tier not in _V:
        _V[tier] = list(values(tier))
    return _V[tier]


def run(R, tier):
    need("dtype_copy")
    need("vector_copy")
    pmap(R, one, [(i, tier) for i in range(len(_values(tier)))])
    seen = {f.split(":")[-1] for f in R.functions}
    for n in sorted({k[1] if isinstance(k, tuple) else k for k in prog().funcs}):
        if n.endswith("_copy") or n.startswith("delete_"):
            if n in seen:
                R.ok("coverage", n)
            else:
                R.unk("coverage", n, "no value is copied or released by it")

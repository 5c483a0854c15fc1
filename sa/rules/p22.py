"""P22: text is never written past the storage it is built in."""
import itertools
import os
from rules.back_common import *
from rules.lex_common import Lex, KEYWORDS, PUNCT
from report import pmap

META = {"level": "other", "explanation":
        "Every function that builds text is interpreted abstractly on the values its constructors give it, with names of unknown length, numbers of unknown value and every kind, type, register "
        "and visibility. At every write of text the length of the content (a linear form over the unknown lengths) plus its terminator is compared with the size of the allocation it goes to; "
        "at every block copy or fill the size is compared with both allocations. Display of string bytes is analysed for every byte value in runs of several lengths. "
        "Every call of a text writing library function in the sources has to be met by a scenario.",
        "assumptions": ["the C library writes what the format says", "the length of a number is at most that of its type's longest value"]}
TEXTW = ("sprintf", "vsprintf", "strcat", "strcpy", "strncpy", "strncat", "vsnprintf", "snprintf", "stpcpy", "gets")
BLOCK = ("memcpy", "memmove", "memset")


def all_sites():
    out = {}
    for (tu, n), fn in prog().funcs.items():
        for x in fn.walk():
            if x.k == "CallExpr" and x.c and x.c[0].c and x.c[0].c[0].ref and x.c[0].c[0].ref[1] in TEXTW + BLOCK:
                out.setdefault((x.file, x.line, x.c[0].c[0].ref[1]), (n, x.c[0].c[0].ref[1]))
    return out


def site(node):
    return os.path.basename(os.path.dirname(node.file)) + "/" + os.path.basename(node.file), node.line


MAXNUM = 20  # characters of the longest 64-bit number, sign included


def unwrap(t):
    """lengths kept in an int are those of texts shorter than 2 GiB"""
    while isinstance(t, tuple) and t[0] == "trunc" and t[1] >= 32:
        t = t[3]
    return t


def plain(v):
    k, parts = interp.lin_parts(v)
    out = k
    for t, c in parts.items():
        u = unwrap(t)
        out = interp.ladd(out, interp.lmul(plain(u) if u is not t else u, c))
    return out


def upper(E, s, v):
    """-> (most the linear form can be, the unknown that makes it unlimited)"""
    k, parts = interp.lin_parts(plain(v))
    hi = k
    for t, c in parts.items():
        lo_, hi_, why = limits(E, s, t)
        b = c * (hi_ if c > 0 else lo_)
        if b in (INF, -INF):
            return INF, t
        hi += b
    return hi, None


def limits(E, s, t):
    if isinstance(t, tuple) and t[0] == "strlen":
        p = t[1]
        if isinstance(p, tuple):
            if p[0] == "dec":
                return 1, MAXNUM if "l" in p[1] else 11, None
            if p[0] == "num":
                return 1, 22, None
            if p[0] == "chr":
                return 0, 1, None
            if p[0] == "null-text":
                return 6, 6, None
            if p[0] == "str":
                return 0, INF, None
        raise Undecided("length of %s" % (show(p) if not isinstance(p, str) else p))
    d = E.dom(s, t)
    return d.min(), d.max(), None


class W:
    """one analysis with the size comparison attached"""

    def __init__(self, R, key):
        self.R, self.key = R, key
        self.E = Engine(prog(), max_states=400)
        self.E.models.pop("new_string", None)
        for n in list(self.E.models):
            if n.startswith("delete_x64") or n.startswith("delete_immc") or n == "sliteral_copy":
                self.E.models.pop(n)
        self.E.on_text, self.E.on_block = self.on_text, self.on_block
        self.E.check_bounds = True
        self.s = State()
        self.lab = Lab(self.E, self.s)
        self.n = 0

    def on_text(self, s, o, cap, node, unset):
        E, R = self.E, self.R
        f, l = site(node)
        key = "%s at %s" % (self.key, node_fn(node))
        self.n += 1
        if unset:
            R.bad("size", key, "%s:%d" % (f, l), "text is added to storage that holds no text yet")
            return
        if cap is None:
            return
        need = interp.ladd(models.text_len(o.x), 1)
        try:
            over, why = upper(E, s, interp.ladd(need, cap, -1))
        except Undecided as x:
            R.unk("size", key, str(x))
            return
        if over > 0:
            R.bad("size", key, "%s:%d" % (f, l), "text of length %s with its terminator is written into %s bytes%s" % (
                show(models.text_len(o.x)), show(cap), ": %s has no limit" % show(why) if why is not None else ", %s too few" % over))
        else:
            R.ok("size", key)

    def on_block(self, s, p, n, node):
        R = self.R
        if not (isinstance(p, tuple) and p[0] == "p"):
            return
        o = s.objs.get(p[1])
        f, l = site(node)
        cap = o.f.get(("#size",)) if o is not None else None
        off = p[2][-1] if p[2] else 0
        self.n += 1
        if cap is None or isinstance(off, str):
            return
        key = "%s block at %s" % (self.key, node_fn(node))
        d = interp.ladd(interp.ladd(n, off), cap, -1)
        c = self.E.known(s, interp.mk_cmp("<=", d, 0))
        if c is None and not isinstance(d, int):
            hi, why = upper(self.E, s, d)
            c = hi <= 0
        if c:
            R.ok("size", key)
        else:
            R.bad("size", key, "%s:%d" % (f, l), "%s bytes are copied or filled where %s are allocated" % (show(n), show(cap)))

    def sym(self, n, ty=None):
        t = ("in", n)
        if ty:
            self.E.termty[t] = ty
        return t

    def name(self, n="name"):
        return self.sym(n, ("char *", None))

    def call(self, fn, *a):
        """every outcome of one call; all obligations are met inside"""
        rs = self.E.call(("fn", fn, None), list(a), self.lab.s, FAKE)
        for f in self.E.findings:
            if f[0] == "out-of-bounds":
                self.R.bad("size", self.key, "%s:%s" % (f[1], f[2]), f[4])
        self.R.saw(self.E.visited)
        self.R.oblig.setdefault('size', [0, 0, 0])
        return rs


def node_fn(node):
    return "%s:%d" % (os.path.basename(node.file), node.line)


def enum_of(n):
    return [x for x, _ in prog().enumtypes.get(n, ())]


def x64_opes():
    regs = [x for x in enum_of("X64RegisterId")]
    for sfx in ("X64_SUFFIX_BYTE", "X64_SUFFIX_WORD", "X64_SUFFIX_LONG", "X64_SUFFIX_QUAD"):
        yield "suffix " + sfx, lambda w, x=sfx: w.lab.call("new_suffix_x64ope", ev(x))
        for r in regs:
            yield "register %s %s" % (r, sfx), lambda w, x=sfx, r=r: w.lab.call("new_reg_x64ope", ev(x), ev(r))
    for r in regs:
        yield "pointer " + r, lambda w, r=r: w.lab.call("new_ptr_x64ope", ev(r))
        yield "jump pointer " + r, lambda w, r=r: w.lab.call("new_jptr_x64ope", ev(r))
    yield "memory", lambda w: w.lab.call("new_mem_x64ope", w.sym("offset", ("int", None)))
    yield "label", lambda w: w.lab.call("new_label_x64ope", w.lab.call("new_string", w.name()))
    yield "jump label", lambda w: w.lab.call("new_jlabel_x64ope", w.lab.call("new_string", w.name()))
    yield "signed number", lambda w: w.lab.call("new_signed_int_x64ope", ev("X64_SUFFIX_QUAD"), ev("INTEGER_LONGLONG"), w.sym("value", ("long long", None)))
    yield "unsigned number", lambda w: w.lab.call("new_unsigned_int_x64ope", ev("X64_SUFFIX_QUAD"), ev("INTEGER_UNSIGNED_LONGLONG"), w.sym("value", ("unsigned long long", None)))


def immc_opes():
    for sfx in enum_of("ImmcSuffix"):
        if sfx.endswith("NONE"):
            continue
        for k in ("arg", "reg"):
            for g in ("signed", "unsigned"):
                yield "%s %s %s" % (g, k, sfx), lambda w, x=sfx, k=k, g=g: w.lab.call("new_%s_%s_immcope" % (g, k), ev(x), w.sym("id", ("int", None)))
    yield "pointer", lambda w: w.lab.call("new_ptr_immcope", w.sym("id", ("int", None)))
    yield "memory", lambda w: w.lab.call("new_mem_immcope", w.sym("offset", ("int", None)))
    yield "label", lambda w: w.lab.call("new_label_immcope", w.lab.call("new_string", w.name()))
    yield "label number", lambda w: w.lab.call("new_label_immcope_from_id", w.sym("id", ("int", None)))
    yield "signed number", lambda w: w.lab.call("new_signed_int_immcope", ev("IMMC_SUFFIX_QUAD"), ev("INTEGER_LONGLONG"), w.sym("value", ("long long", None)))
    yield "unsigned number", lambda w: w.lab.call("new_unsigned_int_immcope", ev("IMMC_SUFFIX_QUAD"), ev("INTEGER_UNSIGNED_LONGLONG"), w.sym("value", ("unsigned long long", None)))
    yield "string", lambda w: w.lab.call("new_str_immcope", w.lab.call("new_sliteral", w.chars(bytes([200] * 80) + b"\0"), 81))


def chars(w, bs):
    oid = w.E.new_heap(w.lab.s, "buf", None, (), "literal")
    o = w.lab.s.objs[oid]
    o.kind, o.x = "heap", None
    o.f[("#size",)] = len(bs)
    for i, b in enumerate(bs):
        o.f[(i,)] = b if b < 128 else b - 256
    return ("p", oid, ())


W.chars = chars


def scenarios(tier):
    sc = []
    for n, mk in x64_list():
        sc.append(("x64 operand " + n, "x64ope_tostring", mk))
    ops = [m for m in x64_list() if m[0] in ("label", "jump label", "memory", "signed number", "unsigned number", "pointer R15_REG_ID", "register R10_REG_ID X64_SUFFIX_LONG",
                                             "register SP_REG_ID X64_SUFFIX_QUAD", "suffix X64_SUFFIX_BYTE", "suffix X64_SUFFIX_QUAD")]
    none = ("no operand", lambda w: 0)
    for it in enum_of("X64InstType"):
        two = it in ("X64_INST_MOVSXX", "X64_INST_MOVZXX", "X64_INST_CXTX")
        for (a, ma), (b, mb) in itertools.product(ops + [none], repeat=2):
            if two and (a == "no operand" or b == "no operand"):
                continue
            sc.append(("x64 instruction %s, %s, %s" % (it, a, b), "x64_tostring", lambda w, it=it, ma=ma, mb=mb: w.lab.call("new_inst_x64", ev(it), ma(w), mb(w))))
    iops = list(immc_opes())
    sel = [x for x in iops if x[0] in ("label", "signed number", "unsigned number", "memory", "string", "pointer", "signed reg IMMC_SUFFIX_BYTE")]
    for n, mk in iops:
        sc.append(("operand " + n, "immcope_tostring", mk))
    for it in enum_of("ImmcInstType"):
        for (a, ma), (b, mb), (c, mc) in itertools.product(sel[:3] + [none] if tier != "thorough" else sel + [none], repeat=3):
            sc.append(("instruction %s, %s, %s, %s" % (it, a, b, c), "immc_tostring", lambda w, it=it, ma=ma, mb=mb, mc=mc: w.lab.call("new_inst_immc", ev(it), ma(w), mb(w), mc(w))))
    for pre, fn in (("X64", "x64"), ("IMMC", "immc")):
        for lt in enum_of("%sLabelType" % ("X64" if pre == "X64" else "Immc")):
            for vis in enum_of("%sVisibility" % ("X64" if pre == "X64" else "Immc")):
                sc.append(("%s label %s %s" % (fn, lt, vis), fn + "_tostring", lambda w, lt=lt, vis=vis, fn=fn: w.lab.call("new_label_" + fn, ev(lt), ev(vis), w.lab.call("new_string", w.name()))))
        for dt in enum_of("%sDataType" % ("X64" if pre == "X64" else "Immc")):
            if dt.endswith("_STR"):
                for bs in byte_runs(tier):
                    sc.append(("%s string of %d bytes %s" % (fn, len(bs), sorted(set(bs))[:4]), fn + "_tostring", lambda w, dt=dt, fn=fn, bs=bs: w.lab.call(
                        "new_str_data_" + fn, ev(dt), w.lab.call("new_sliteral", w.chars(bs), len(bs)))))
            else:
                for g, ty in (("signed", "long long"), ("unsigned", "unsigned long long")):
                    sc.append(("%s data %s %s" % (fn, dt, g), fn + "_tostring", lambda w, dt=dt, fn=fn, g=g, ty=ty: w.lab.call(
                        "new_int_data_" + fn, ev(dt), w.lab.call("new_%s_iliteral" % g, ev("INTEGER_LONGLONG" if g == "signed" else "INTEGER_UNSIGNED_LONGLONG"), w.sym("value", (ty, None))))))
    for fn in ("create_label_name", "create_sliteral_label"):
        sc.append((fn, fn, lambda w: w.sym("id", ("int", None))))
    sc.append(("copy of a text", "new_string", lambda w: w.name()))
    for bs in byte_runs(tier):
        sc.append(("display of %d bytes %s" % (len(bs), sorted(set(bs))[:4]), "sliteral_display_string", lambda w, bs=bs: w.lab.call("new_sliteral", w.chars(bs), len(bs))))
    return sc


def x64_list():
    return list(x64_opes())


def byte_runs(tier):
    for b in range(256):
        for n in (1, 2, 3, 16):
            yield bytes([b] * n)
    yield b""
    for b in (0, 7, 34, 65, 92, 127, 200):
        yield bytes([b] * 70)
    for b in range(0, 256, 32):
        yield bytes(range(b, b + 32))


_SC = {}


def go(R, tier, i):
    if tier not in _SC:
        _SC[tier] = scenarios(tier)
    key, fn, mk = _SC[tier][i]
    try:
        w = W(R, key)
        a = mk(w)
        w.call(fn, a)
        if not w.n:
            R.unk("size", key, "no text is written")
    except Undecided as x:
        R.unk("size", key, x)


def blocks(R, which):
    """copies of string literals, with sizes nobody knows; messages of errors"""
    w = W(R, which)
    L = w.lab
    try:
        if which == "error message":
            for fmt, args in (("no argument", []), ("a '%s' b", [w.name()]), ("%s and %s", [w.name(), w.name("other")]), ("%d of %d", [w.sym("i", ("int", None))] * 2),
                              ("'%c'", [w.sym("c", ("int", None))]), ("100%%", [])):
                w.key = "error message " + fmt
                w.call("new_error", ("s", fmt), *args)
            return
        size = w.sym("size", ("int", None))
        w.E.assume(L.s, size, Dom(None, 1, INF))
        src = w.E.new_heap(L.s, "heap", None, None, "literal")
        L.s.objs[src].f[("#size",)] = size
        sl = L.call("new_sliteral", ("p", src, ()), size)
        if which == "copy of a literal":
            w.call("sliteral_copy", sl)
        else:
            n = w.sym("wanted", ("int", None))
            w.E.assume(L.s, n, Dom(None, 1, INF))
            w.call("sliteral_zero_padding_copy", sl, n)
    except Undecided as x:
        R.unk("size", which, x)


# ------------------------------------------------------------------ the text of tokens grows as it is read
def readings(tier):
    top = 41 if tier == "quick" else 131
    one = frozenset
    for n in range(1, top):
        yield "a word of %d characters" % n, "q" * n + " "
        yield "a keyword and %d more characters" % n, "int" + "_" * n + " "
        yield "a decimal constant of %d digits" % n, "7" * n + " "
        yield "an octal constant of %d digits" % n, "0" * n + " "
        yield "a hexadecimal constant of %d digits" % n, "0x" + "f" * n + " "
        yield "a string of %d bytes" % (n - 1), '"' + "s" * (n - 1) + '"'
        yield "a string that begins with an escape, of %d bytes" % n, '"\\n' + "s" * (n - 1) + '"'
        yield "a string that ends with an escape, of %d bytes" % n, '"' + "s" * (n - 1) + '\\n"'
        yield "an unterminated string of %d bytes" % n, '"' + "s" * n
        yield "an unterminated line of %d bytes" % n, '"' + "s" * n + "\n"
        if n <= 24:
            yield "a string of %d escapes" % n, '"' + "\\0" * n + '"'
            yield "a character constant of %d bytes" % n, "'" + "c" * n + "'"
            yield "a suffix of %d characters" % n, "1" + "lu"[n % 2] * n + " "
    for k in KEYWORDS + sorted(PUNCT):
        yield "the text %s" % k, k + " "
    for k in ("0", "7", "0x", "0x1", "'", '"', "\\", "'\\", '"\\', "'\\x", "'\\1", "-", "<", "<<", "&", "1u", "1l", "1ul", "1ll", "1ull"):
        yield "the text %s at the end" % k, k


def reading(R, key, text):
    try:
        x = Lex(len(text), {i: frozenset([ord(c)]) for i, c in enumerate(text)}, False)
        outs = x.run()
    except Undecided as e:
        R.unk("size", key, e)
        return
    R.saw(x.E.visited)
    seen = set()
    for f in x.E.findings:
        if f[0] == "out-of-bounds" and f[4] not in seen:
            seen.add(f[4])
            R.bad("size", key, "%s:%s" % (f[1], f[2]), f[4])
    if not seen:
        if outs:
            R.ok("size", key)
        else:
            R.unk("size", key, "no outcome")


def run(R, tier):
    need("x64_tostring")
    need("new_error")
    n = len(scenarios(tier))
    pmap(R, go, [(tier, i) for i in range(n)])
    pmap(R, reading, list(readings(tier)))
    for k in ("error message", "copy of a literal", "padded copy of a literal"):
        blocks(R, k)
    st = all_sites()
    seen = R.sites | interp.SITES
    for (f, l, _), (fn, what) in sorted(st.items()):
        if (f, l, what) in seen:
            R.ok("sites", "%s in %s line" % (what, fn))
        elif "/lexer/" not in f:
            R.unk("sites", "%s in %s" % (what, fn), "no scenario comes to %s:%d" % (f, l))

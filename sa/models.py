"""Abstract transfer functions for libc and for the repository's container interfaces."""


def I():
    import interp
    return interp


BASE_MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            BASE_MODELS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ libc: memory
@model("malloc", "calloc")
def m_malloc(E, s, a, node):
    site = "%s:%d" % (node.file, node.line)
    ty = None
    sz = a[0] if len(a) == 1 else a
    oid = E.new_heap(s, "heap", ty, None, site)
    s.objs[oid].f[("#size",)] = sz if not isinstance(sz, list) else tuple(sz)
    E.on_alloc(s, oid, node) if hasattr(E, "on_alloc") else None
    return [(("p", oid, ()), s)]


@model("realloc")
def m_realloc(E, s, a, node):
    if isinstance(a[0], int) and a[0] == 0:
        return m_malloc(E, s, a[1:], node)
    p = a[0]
    if isinstance(p, tuple) and p[0] == "p":
        o = s.wobj(p[1])
        o.f[("#size",)] = a[1]
        return [(p, s)]
    return [(("realloc", p, a[1]), s)]


@model("free")
def m_free(E, s, a, node):
    p = a[0]
    if isinstance(p, int):
        return [(0, s)]
    if p[0] == "p":
        o = s.objs.get(p[1])
        if o is not None:
            if p[1][0] in ("L", "G") or p[2] not in ((), (0,)):
                E.finding(s, "bad-free", node, "free of storage that was not allocated")
            if o.freed:
                E.finding(s, "double-free", node, "object allocated at %s is released twice" % (o.site,))
            s.wobj(p[1]).freed = True
        return [(0, s)]
    if p[0] == "s":
        E.finding(s, "bad-free", node, "free of a string constant")
        return [(0, s)]
    if p[0] == "fn":
        return [(0, s)]
    oid = ("D", p)
    if oid not in s.objs:
        s.put(oid, I().Obj("sym", None, p))
    if s.objs[oid].freed:
        E.finding(s, "double-free", node, "%s is released twice" % I().show(p))
    s.wobj(oid).freed = True
    return [(0, s)]


@model("exit", "abort", "_exit")
def m_exit(E, s, a, node):
    s.event("exit", a[0] if a else 1)
    return E.dead(s, ("exit", a[0] if a else 1), node)


@model("memset")
def m_memset(E, s, a, node):
    p = a[0]
    E.on_block(s, p, a[2], node) if hasattr(E, "on_block") else None
    if isinstance(p, tuple) and p[0] == "p":
        o = s.wobj(p[1])
        if o.kind in ("str", "buf"):
            o.x = ()
        elif a[1] == 0:
            o.kind = "zero" if o.kind in ("heap", "local") else o.kind
    return [(p, s)]


@model("memcpy", "memmove")
def m_memcpy(E, s, a, node):
    d, q = a[0], a[1]
    if hasattr(E, "on_block"):
        E.on_block(s, d, a[2], node)
        E.on_block(s, q, a[2], node)
    if isinstance(d, tuple) and d[0] == "p" and isinstance(q, tuple) and q[0] == "p" and isinstance(a[2], int) and q[2] in ((), (0,)) and d[2] in ((), (0,)):
        qo, do = s.objs.get(q[1]), s.objs.get(d[1])
        if qo is not None and do is not None and qo.kind == "heap" and do.kind in ("heap", "zero") and a[2] > 1:
            cells = [qo.f.get((i,)) for i in range(a[2])]
            if all(isinstance(c, int) for c in cells) and 0 in cells[:-1]:  # bytes after a zero byte
                do = s.wobj(d[1])
                for i, c in enumerate(cells):
                    do.f[(i,)] = c
                return [(d, s)]
    if isinstance(d, tuple) and d[0] == "p":
        t = text_of(E, s, q)
        o = s.wobj(d[1])
        if o.kind in ("heap", "str", "buf", "zero"):
            n, zero = I().strip(a[2]), o.kind == "zero"
            o.kind = "str" if o.kind in ("heap", "zero") else o.kind
            if is_plain(t) and isinstance(n, int):
                w = I().pieces_text(t)
                size = o.f.get(("#size",))
                w = (w + "\0" * n)[:n]
                if not zero and isinstance(size, int) and size > n:
                    w += "\ufffd" * (size - n)  # never written
                t = (w.rstrip("\0"),) if w.rstrip("\0") else ()
                o.x = t
            else:
                o.x = (("memcpy", t, n),) if not is_plain(t) else t
    return [(d, s)]


# ------------------------------------------------------------------ libc: text
def text_of(E, s, v):
    return I().text_of(E, s, v)


def is_plain(t):
    return I().pieces_text(t) is not None


def set_text(E, s, dst, pieces, node, append=False):
    it = I()
    if not (isinstance(dst, tuple) and dst[0] == "p"):
        if isinstance(dst, tuple) and dst[0] not in ("s", "fn"):
            for loc, s2 in E.deref(s, dst, node):
                o = s2.wobj(loc[0])
                if o.kind == "sym":
                    o.kind = "str"
                    o.x = (("str", it.strip(dst)),)
                o.x = it.norm_pieces((o.x if append else ()) + tuple(pieces))
        return
    o = s.wobj(dst[1])
    if o.freed:
        E.finding(s, "use-after-free", node, "text written to released storage")
    off = dst[2][-1] if dst[2] else 0
    unset = append and o.kind == "heap" and (0,) not in o.f
    if o.kind in ("heap", "local", "zero"):
        x = ()
        if len(dst[2]) <= 1 and isinstance(off, int) and off > 0:
            cells = [o.f.get((i,)) for i in range(off)]
            if all(isinstance(c, int) and c for c in cells):
                x = ("".join(chr(c & 255) for c in cells),)
        o.kind = "str"
        o.x = x
    cur = o.x or ()
    if append:
        new = cur + tuple(pieces)
    elif off == 0:
        new = tuple(pieces)
    else:
        # write at the current end is an append
        ln = text_len(cur)
        if off == ln:
            new = cur + tuple(pieces)
        else:
            t = it.pieces_text(cur)
            if t is not None and isinstance(off, int):
                new = (t[:off],) + tuple(pieces)
            else:
                new = (("at-offset", cur, off),) + tuple(pieces)
    o.x = it.norm_pieces(new)
    cap = o.f.get(("#size",))
    if o.kind == "buf" and o.ty:
        t = o.ty[1] or o.ty[0]
        try:
            cap = int(t[t.index("[") + 1:t.index("]")])
        except ValueError:
            cap = None
    E.on_text(s, o, cap, node, unset) if hasattr(E, "on_text") else None


def text_len(ps):
    it = I()
    n = 0
    for p in ps or ():
        n = it.ladd(n, len(p) if isinstance(p, str) else ("strlen", p))
    return n


def fmt_pieces(E, s, fmt, args):
    """-> tuple of pieces"""
    it = I()
    out = []
    i = 0
    ai = 0
    ft = it.pieces_text(text_of(E, s, fmt))
    if ft is None:
        return (("fmt", it.strip(fmt)) + tuple(it.freeze(E, s, a) for a in args),)
    while i < len(ft):
        c = ft[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        j = i + 1
        while j < len(ft) and ft[j] in "-+ #0123456789.lhzjt":
            j += 1
        conv = ft[i:j + 1]
        ch = ft[j] if j < len(ft) else ""
        i = j + 1
        if ch == "%":
            out.append("%")
            continue
        a = args[ai] if ai < len(args) else ("missing-arg",)
        ai += 1
        if ch == "s":
            if isinstance(a, int) and a == 0:
                out.append(("null-text",))
            else:
                out.extend(text_of(E, s, a))
        elif ch == "c":
            out.append(chr(a & 255) if isinstance(a, int) else ("chr", it.strip(a)))
        elif ch in "diu":
            a = E.resolve(s, a) if isinstance(a, tuple) else a
            if isinstance(a, int):
                bits = 64 if "ll" in conv or "l" in conv else 32
                v = a & ((1 << bits) - 1)
                if ch != "u" and v >> (bits - 1):
                    v -= 1 << bits
                out.append(str(v))
            else:
                out.append(("dec", conv[1:], it.strip(a)))
        elif ch in "xXo":
            if isinstance(a, int):
                bits = 64 if "l" in conv else 32
                out.append((conv.replace("l", "")) % (a & ((1 << bits) - 1)))
            else:
                out.append(("num", conv, it.strip(a)))
        else:
            out.append(("conv", conv, it.strip(a)))
    return it.norm_pieces(tuple(out))


@model("sprintf")
def m_sprintf(E, s, a, node):
    ps = fmt_pieces(E, s, a[1], a[2:])
    set_text(E, s, a[0], ps, node)
    return [(text_len(ps), s)]


@model("snprintf")
def m_snprintf(E, s, a, node):
    ps = fmt_pieces(E, s, a[2], a[3:])
    if not (isinstance(a[0], int) and a[0] == 0):
        set_text(E, s, a[0], ps, node)
    return [(text_len(ps), s)]


def va_args(E, s, v):
    fr = E.stack[-1]
    if isinstance(v, tuple) and v and v[0] == "valist":
        return list(v[1])
    return list(fr.va)


@model("vsprintf")
def m_vsprintf(E, s, a, node):
    ps = fmt_pieces(E, s, a[1], va_args(E, s, a[2]))
    set_text(E, s, a[0], ps, node)
    return [(text_len(ps), s)]


@model("vsnprintf")
def m_vsnprintf(E, s, a, node):
    ps = fmt_pieces(E, s, a[2], va_args(E, s, a[3]))
    if not (isinstance(a[0], int) and a[0] == 0):
        set_text(E, s, a[0], ps, node)
    return [(text_len(ps), s)]


@model("__builtin_va_start", "__builtin_va_end", "__builtin_va_copy", "va_start", "va_end", "va_copy")
def m_va(E, s, a, node):
    return [(0, s)]


@model("printf")
def m_printf(E, s, a, node):
    s.event("print", "stdout", fmt_pieces(E, s, a[0], a[1:]))
    return [(0, s)]


def stream(v):
    if isinstance(v, tuple):
        x = I().strip(v)
        return x
    return v


@model("fprintf")
def m_fprintf(E, s, a, node):
    s.event("print", stream(a[0]), fmt_pieces(E, s, a[1], a[2:]), node.line)
    return [(0, s)]


@model("fputs")
def m_fputs(E, s, a, node):
    s.event("print", stream(a[1]), text_of(E, s, a[0]), node.line)
    return [(0, s)]


@model("puts")
def m_puts(E, s, a, node):
    s.event("print", "stdout", text_of(E, s, a[0]) + ("\n",), node.line)
    return [(0, s)]


@model("strcpy")
def m_strcpy(E, s, a, node):
    set_text(E, s, a[0], text_of(E, s, a[1]), node)
    return [(a[0], s)]


@model("strncpy")
def m_strncpy(E, s, a, node):
    set_text(E, s, a[0], (("prefix", text_of(E, s, a[1]), I().strip(a[2])),), node)
    return [(a[0], s)]


@model("strcat")
def m_strcat(E, s, a, node):
    set_text(E, s, a[0], text_of(E, s, a[1]), node, append=True)
    return [(a[0], s)]


@model("strlen")
def m_strlen(E, s, a, node):
    if a[0] == 0:
        E.finding(s, "null-deref", node, "strlen of null")
        return E.dead(s, "null-deref", node)
    return [(text_len(text_of(E, s, a[0])), s)]


@model("strcmp")
def m_strcmp(E, s, a, node):
    it = I()
    for v in a:
        if v == 0:
            E.finding(s, "null-deref", node, "strcmp of null")
            return E.dead(s, "null-deref", node)
    x, y = text_of(E, s, a[0]), text_of(E, s, a[1])
    tx, ty = it.pieces_text(x), it.pieces_text(y)
    if x == y:
        return [(0, s)]
    if tx is not None and ty is not None:
        return [((tx > ty) - (tx < ty), s)]
    if repr(x) > repr(y):
        x, y = y, x
    return [(("strcmp", x, y), s)]


@model("strncmp")
def m_strncmp(E, s, a, node):
    it = I()
    x, y = text_of(E, s, a[0]), text_of(E, s, a[1])
    tx, ty = it.pieces_text(x), it.pieces_text(y)
    if tx is not None and ty is not None and isinstance(a[2], int):
        tx, ty = tx[:a[2]], ty[:a[2]]
        return [((tx > ty) - (tx < ty), s)]
    return [(("strncmp", x, y, it.strip(a[2])), s)]


@model("strchr", "strrchr")
def m_strchr(E, s, a, node):
    it = I()
    nm = "strchr" if "strrchr" not in str(node.c[0].c[0].ref if node.c[0].c else "") else "strrchr"
    t = it.pieces_text(text_of(E, s, a[0]))
    if t is not None and isinstance(a[1], int):
        if a[1] == 0:
            i = len(t)
        else:
            i = t.find(chr(a[1] & 255)) if nm == "strchr" else t.rfind(chr(a[1] & 255))
        if i < 0:
            return [(0, s)]
        if a[0][0] == "s":
            return [(("s", t[i:]), s)]
        return [(("p", a[0][1], (i,)), s)]
    return [((nm, text_of(E, s, a[0]), it.strip(a[1])), s)]


def _ctype(name, pred):
    def f(E, s, a, node):
        if isinstance(a[0], int):
            return [(int(pred(a[0])), s)]
        return [((name, I().strip(a[0])), s)]
    BASE_MODELS[name] = f


_ctype("isdigit", lambda c: 48 <= c <= 57)
_ctype("isxdigit", lambda c: chr(c) in "0123456789abcdefABCDEF" if 0 <= c < 128 else False)
_ctype("isalpha", lambda c: 65 <= c <= 90 or 97 <= c <= 122)
_ctype("isalnum", lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122)
_ctype("isspace", lambda c: c in (32, 9, 10, 11, 12, 13))
_ctype("isprint", lambda c: 32 <= c < 127)
_ctype("isupper", lambda c: 65 <= c <= 90)
_ctype("islower", lambda c: 97 <= c <= 122)


@model("tolower")
def m_tolower(E, s, a, node):
    if isinstance(a[0], int):
        return [(a[0] + 32 if 65 <= a[0] <= 90 else a[0], s)]
    return [(("tolower", I().strip(a[0])), s)]


def _strto(name):
    def f(E, s, a, node):
        t = text_of(E, s, a[0])
        if isinstance(a[1], tuple) and a[1][0] == "p":
            E.write(s, (a[1][1], a[1][2]), (name + "-end", t, a[2]))
        return [((name, t, a[2]), s)]
    BASE_MODELS[name] = f


for _n in ("strtol", "strtoll", "strtoul", "strtoull"):
    _strto(_n)


# ------------------------------------------------------------------ repository: text and integers
@model("new_string")
def m_new_string(E, s, a, node):
    if a[0] == 0:
        E.finding(s, "null-deref", node, "copy of a null string")
        return E.dead(s, "null-deref", node)
    if isinstance(a[0], tuple) and a[0][0] not in ("p", "s", "fn"):
        if E.dom(s, a[0]).has(0):
            E.assume(s, a[0], I().Dom(None, -I().INF, I().INF, frozenset([0])))
    oid = E.new_heap(s, "str", None, text_of(E, s, a[0]), "%s:%d" % (node.file, node.line))
    return [(("p", oid, ()), s)]


# ------------------------------------------------------------------ vectors
def vec(E, s, v, node):
    """-> (oid, obj) ; None when the path is dead"""
    it = I()
    if isinstance(v, int):
        E.finding(s, "null-deref", node, "container operation on null")
        E.dead(s, "null-deref", node)
        return None
    if v[0] == "p":
        oid = v[1]
        o = s.objs.get(oid)
        if o is None:
            raise it.Undecided("container lost")
        if o.freed:
            E.finding(s, "use-after-free", node, "container used after its release")
        return oid, o
    oid = ("D", v)
    o = s.objs.get(oid)
    if o is None or o.kind == "sym":
        d = E.dom(s, v)
        if d.const() == 0:
            E.finding(s, "null-deref", node, "container operation on null %s" % it.show(v))
            E.dead(s, "null-deref", node)
            return None
        if d.has(0):
            if E.maybe_null(s, v):
                E.finding(s, "maybe-null-deref", node, "%s may be null here" % it.show(v))
            E.assume(s, v, it.Dom(None, -it.INF, it.INF, frozenset([0])))
        fr = o.freed if o is not None else False
        o = it.Obj("vec", None, (("ext", v),))
        o.freed = fr
        s.put(oid, o)
    if o.freed:
        E.finding(s, "use-after-free", node, "released container %s used" % it.show(v))
    return oid, o


@model("new_vector")
def m_new_vector(E, s, a, node):
    oid = E.new_heap(s, "vec", None, (), "%s:%d" % (node.file, node.line))
    s.objs[oid].f[("t_item",)] = a[0]
    return [(("p", oid, ()), s)]


@model("vector_push")
def m_vector_push(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    o = s.wobj(r[0])
    o.x = o.x + (("one", a[1]),)
    return [(0, s)]


def piece_size(E, s, p):
    it = I()
    if p[0] == "one":
        return 1
    if p[0] == "ext":
        return ("size", it.strip(p[1]))
    return ("size", p)


def vec_len(E, s, x):
    it = I()
    n = 0
    for p in x:
        n = it.ladd(n, piece_size(E, s, p))
    return n


@model("vector_size")
def m_vector_size(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    return [(E.resolve(s, vec_len(E, s, r[1].x)), s)]


def vec_get(E, s, v, o, i, node):
    """-> list of (value, state)"""
    it = I()
    x = o.x
    i = E.resolve(s, i)
    if all(p[0] == "one" for p in x):
        if isinstance(i, int):
            return [(x[i][1] if 0 <= i < len(x) else 0, s)]
        k, sg, c = it.lin_key(i)
        vals = tuple(it.freeze(E, s, p[1]) for p in x)
        if len(x) <= 8 and len(x) > 0:
            # unknown index into a known sequence: one case per element
            out = []
            for j in range(len(x)):
                st = s.fork()
                if E.constrain(st, it.mk_cmp("==", i, j), True):
                    out.append((x[j][1], st))
            st = s.fork()
            dm = it.Dom(None, 0, len(x) - 1)
            key, sg, c = it.lin_key(i)
            if sg == 1:
                lo, hi = -c, len(x) - 1 - c
            else:
                lo, hi = c - (len(x) - 1), c
            cur = E.dom(st, key)
            rest = [cur.meet(it.Dom(None, -it.INF, lo - 1)), cur.meet(it.Dom(None, hi + 1, it.INF))]
            for d in rest:
                if not d.empty():
                    st2 = st.fork()
                    st2.setfact(it.strip(key), d)
                    out.append((0, st2))
            return out
        return [(("at", ("vecval", vals), i), s)]
    if isinstance(i, int):
        if i < 0:
            return [(0, s)]
        j = i
        for n, p in enumerate(x):
            if p[0] == "one":
                if j == 0:
                    return [(p[1], s)]
                j -= 1
            elif p[0] == "ext":
                sz = E.dom(s, ("size", it.strip(p[1])))
                c = sz.const()
                if c is not None:
                    if j < c:
                        return [(("at", p[1], j), s)]
                    j -= c
                    continue
                if n == len(x) - 1 or sz.min() > j:
                    if sz.max() <= j:
                        return [(0, s)]
                    return [(("at", p[1], j), s)]
                out = []
                st = s.fork()
                if E.assume(st, ("size", it.strip(p[1])), it.Dom(None, j + 1, it.INF)):
                    out.append((("at", p[1], j), st))
                for c2 in range(0, j + 1):
                    st = s.fork()
                    if E.assume(st, ("size", it.strip(p[1])), it.Dom(frozenset([c2]))):
                        out += vec_get(E, st, v, st.objs[v], i, node)
                return out
            else:
                return [(("at", ("vecval", tuple(x)), i), s)]
        return [(0, s)]
    # the last element
    ln = vec_len(E, s, x)
    back = it.ladd(ln, i, -1)
    if isinstance(back, int) and back >= 1 and x:
        j = back
        for p in reversed(x):
            if p[0] == "one":
                if j == 1:
                    return [(p[1], s)]
                j -= 1
                continue
            if p[0] == "ext" and j == 1:
                sz = ("size", it.strip(p[1]))
                d = E.dom(s, sz)
                out = []
                st = s.fork()
                if E.assume(st, sz, it.Dom(None, 1, it.INF)):
                    out.append((("last", p[1]), st))
                if E.assume(s, sz, it.Dom(frozenset([0]))):
                    rest = tuple(q for q in x if q is not p)
                    o2 = it.Obj("vec", None, rest)
                    out += vec_get(E, s, v, o2, it.ladd(vec_len(E, s, rest), 1, -1), node)
                return out
            if p[0] in ("loop", "grow") and j == 1:
                return [(("last", p), s)]
            break
    if len(x) == 1 and x[0][0] == "ext":
        k = E.known(s, it.mk_cmp("<", i, ("size", it.strip(x[0][1]))))
        if k is False:
            return [(0, s)]
        return [(("at", x[0][1], i), s)]
    fz = tuple(it.freeze_vpiece(E, s, p, 0, ()) for p in x)
    return [(("at", ("vecval", fz), i), s)]


@model("vector_at")
def m_vector_at(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    return vec_get(E, s, r[0], r[1], a[1], node)


@model("vector_pop")
def m_vector_pop(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    o = s.wobj(r[0])
    if o.x and o.x[-1][0] == "one":
        v = o.x[-1][1]
        o.x = o.x[:-1]
        return [(v, s)]
    fz = I().strip(o.x)
    n = s.fresh("pop")
    o.x = (("popped", fz),)
    return [(("pop", fz), s)]


@model("vector_extend")
def m_vector_extend(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    q = vec(E, s, a[1], node)
    if q is None:
        return []
    xs = s.objs[q[0]].x
    o = s.wobj(r[0])
    o.x = o.x + xs
    s.wobj(q[0]).x = ()
    return [(0, s)]


@model("vector_set")
def m_vector_set(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    o = s.wobj(r[0])
    i = a[1]
    if isinstance(i, int) and all(p[0] == "one" for p in o.x[:i + 1]):
        if not 0 <= i < len(o.x):
            return [(0, s)]
        old = o.x[i][1]
        o.x = o.x[:i] + (("one", a[2]),) + o.x[i + 1:]
        return [(1, st) for st in delete_item(E, s, o, old, node)]
    o.x = (("set", I().strip(o.x), I().strip(i), I().freeze(E, s, a[2])),)
    return [(1, s)]


@model("vector_fill")
def m_vector_fill(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    o = s.wobj(r[0])
    n = a[1]
    ln = vec_len(E, s, o.x)
    if (E.check_mem or I().is_ptr(a[2])) and isinstance(n, int) and isinstance(ln, int):
        rs = [s]
        for _ in range(ln, n):
            nr = []
            for st in rs:
                for v, st2 in copy_item(E, st, st.objs[r[0]], a[2], node):
                    w = st2.wobj(r[0])
                    w.x = w.x + (("one", v),)
                    nr.append(st2)
            rs = nr
        if not E.check_mem:
            return [(0, st) for st in rs]
        return [(0, st2) for st in rs for st2 in delete_item(E, st, st.objs[r[0]], a[2], node)]
    if isinstance(n, int) and isinstance(ln, int):
        for _ in range(ln, n):
            o.x = o.x + (("one", ("cp", s.fresh("cp"), a[2])),)
        return [(0, s)]
    o.x = o.x + (("fill", I().strip(n), I().freeze(E, s, a[2])),)
    return [(0, s)]


@model("vector_insert")
def m_vector_insert(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    o = s.wobj(r[0])
    i = a[1]
    if isinstance(i, int) and all(p[0] == "one" for p in o.x[:i]) and 0 <= i <= len(o.x):
        o.x = o.x[:i] + (("one", a[2]),) + o.x[i:]
    else:
        o.x = (("insert", I().strip(o.x), I().strip(i), I().freeze(E, s, a[2])),)
    return [(0, s)]


@model("vector_erase")
def m_vector_erase(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    o = s.wobj(r[0])
    i = a[1]
    if isinstance(i, int) and all(p[0] == "one" for p in o.x[:i + 1]) and 0 <= i < len(o.x):
        old = o.x[i][1]
        o.x = o.x[:i] + o.x[i + 1:]
        return [(0, st) for st in delete_item(E, s, o, old, node)]
    o.x = (("erase", I().strip(o.x), I().strip(i)),)
    return [(0, s)]


@model("vector_copy")
def m_vector_copy(E, s, a, node):
    it = I()
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    oid0, o = r
    rs = [((), s)]
    for p in o.x:
        nr = []
        for acc, st in rs:
            if p[0] == "one":
                for v, st2 in copy_item(E, st, o, p[1], node):
                    nr.append((acc + (("one", v),), st2))
            elif p[0] == "ext":
                nr.append((acc + (("ext", ("cp", st.fresh("cp"), p[1])),), st))
            else:
                nr.append((acc + (p,), st))
        rs = nr
    out = []
    for acc, st in rs:
        oid = E.new_heap(st, "vec", None, acc, "%s:%d" % (node.file, node.line))
        if ("t_item",) in o.f:
            st.objs[oid].f[("t_item",)] = o.f[("t_item",)]
        out.append((("p", oid, ()), st))
    return out


def item_fn(E, s, o, which, tf=("t_item",)):
    t = o.f.get(tf)
    if t is None or isinstance(t, int) or t[0] != "p":
        return None
    ob = E.ensure(s, t[1])
    return ob.f.get(t[2] + (which,))


def copy_item(E, s, o, v, node):
    fn = item_fn(E, s, o, "copy_object")
    if fn is not None and isinstance(v, tuple):
        return E.call(fn, [v], s, node)
    if isinstance(v, tuple) and not I().is_ptr(v):
        return [(("cp", s.fresh("cp"), v), s)]
    return [(v, s)]


def delete_item(E, s, o, v, node, tf=("t_item",)):
    if not E.check_mem:
        return [s]
    fn = item_fn(E, s, o, "delete_object", tf)
    if fn is not None and isinstance(v, tuple):
        return [st for _, st in E.call(fn, [v], s, node)]
    return [s]


@model("delete_vector")
def m_delete_vector(E, s, a, node):
    r = vec(E, s, a[0], node)
    if r is None:
        return []
    oid, o = r
    if o.freed:
        E.finding(s, "double-free", node, "container released twice")
    rs = [s]
    if E.check_mem:
        for p in o.x:
            if p[0] == "one":
                rs = [st2 for st in rs for st2 in delete_item(E, st, o, p[1], node)]
    for st in rs:
        st.wobj(oid).freed = True
    return [(0, st) for st in rs]


# ------------------------------------------------------------------ maps and sets
def mapobj(E, s, v, node):
    it = I()
    if isinstance(v, int):
        E.finding(s, "null-deref", node, "map operation on null")
        E.dead(s, "null-deref", node)
        return None
    if v[0] == "p":
        o = s.objs.get(v[1])
        if o is not None and o.freed:
            E.finding(s, "use-after-free", node, "map used after its release")
        return v[1], o
    oid = ("D", v)
    o = s.objs.get(oid)
    if o is None or o.kind == "sym":
        E.assume(s, v, it.Dom(None, -it.INF, it.INF, frozenset([0])))
        o = it.Obj("map", None, (("base", v),))
        s.put(oid, o)
    return oid, o


def mkey(E, s, v):
    it = I()
    if isinstance(v, tuple):
        if v[0] == "s":
            return ("k", it.norm_pieces((v[1],)))
        if v[0] == "p":
            o = s.objs.get(v[1])
            if o is not None and o.kind in ("str", "buf"):
                return ("k", o.x)
            if o is not None and v[2] in o.f:
                return ("ki", it.strip(o.f[v[2]]))
            return ("kp", v)
        return ("k", (("str", it.strip(v)),))
    return ("k0", v)


def keys_equal(E, s, k1, k2):
    """True / False / condition term"""
    it = I()
    if k1 == k2:
        return 1
    if k1[0] != k2[0]:
        return 0
    if k1[0] == "k":
        a, b = it.pieces_text(k1[1]), it.pieces_text(k2[1])
        if a is not None and b is not None:
            return 0
        x, y = k1[1], k2[1]
        if repr(x) > repr(y):
            x, y = y, x
        return ("eq", ("strcmp", x, y))
    if k1[0] == "ki":
        return it.mk_cmp("==", k1[1], k2[1])
    return 0


@model("new_map", "new_set")
def m_new_map(E, s, a, node):
    oid = E.new_heap(s, "map", None, (), "%s:%d" % (node.file, node.line))
    for i, x in enumerate(a):
        s.objs[oid].f[("t%d" % i,)] = x
    return [(("p", oid, ()), s)]


@model("map_add")
def m_map_add(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    k = mkey(E, s, a[1])
    o = s.wobj(r[0])
    old = [e for e in o.x if e[0] == k and len(e) > 2]
    o.x = tuple(e for e in o.x if e[0] == "base" or e[0] != k) + ((k, a[2], a[1]),)
    s.event("map-add", k, a[2])
    rs = [s]
    if E.check_mem:
        for e in old:
            rs = delete_cell(E, rs, o, e, node)
    return [(0, st) for st in rs]


def delete_cell(E, rs, o, e, node):
    """the map owns its keys and values"""
    for v, t in ((e[2], "t0"), (e[1], "t1")):
        if isinstance(v, tuple) and o.f.get((t,)) is not None:
            rs = [st2 for st in rs for st2 in delete_item(E, st, o, v, node, (t,))]
    return rs


@model("set_add")
def m_set_add(E, s, a, node):
    return m_map_add(E, s, [a[0], a[1], 1], node)


def map_lookup(E, s, x, k, i, default):
    """-> list of (value, state)"""
    it = I()
    while i >= 0:
        e = x[i]
        if e[0] == "base":
            t = ("mapget", it.strip(e[1]), k)
            return [(t, s)]
        if e[0] == "hv":
            return [(("mapget", it.strip(e), k), s)]
        if e[0] == "removed":
            c = keys_equal(E, s, e[1], k)
            if c == 1:
                return [(default, s)]
            i -= 1
            continue
        c = keys_equal(E, s, e[0], k)
        if isinstance(c, int):
            if c:
                return [(e[1], s)]
            i -= 1
            continue
        out = []
        for b, st in E.decide(s, c):
            if b:
                out.append((e[1], st))
            else:
                out += map_lookup(E, st, x, k, i - 1, default)
        return out
    return [(default, s)]


@model("map_get")
def m_map_get(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    x = r[1].x
    if x and x[0] == "hv":
        return [(("mapget", I().strip(x), mkey(E, s, a[1])), s)]
    return map_lookup(E, s, x, mkey(E, s, a[1]), len(x) - 1, 0)


@model("map_get_with_default")
def m_map_getd(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    x = r[1].x
    out = []
    for v, st in map_lookup(E, s, x, mkey(E, s, a[1]), len(x) - 1, a[2]):
        if isinstance(v, tuple) and v[0] == "mapget":
            for b, s2 in E.decide(st, v):
                out.append((v if b else a[2], s2))
        else:
            out.append((v, st))
    return out


@model("map_contains")
def m_map_contains(E, s, a, node):
    return [(I().as_bool(v), st) for v, st in m_map_get(E, s, a, node)]


@model("set_contains")
def m_set_contains(E, s, a, node):
    return m_map_contains(E, s, a, node)


@model("map_remove", "set_remove")
def m_map_remove(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    k = mkey(E, s, a[1])
    o = s.wobj(r[0])
    o.x = o.x + (("removed", k),)
    return [(0, s)]


@model("delete_map", "delete_set")
def m_delete_map(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    if r[1].freed:
        E.finding(s, "double-free", node, "map released twice")
    s.wobj(r[0]).freed = True
    rs = [s]
    if E.check_mem:
        for e in r[1].x:
            if e[0] not in ("base", "hv", "removed") and len(e) > 2:
                rs = delete_cell(E, rs, r[1], e, node)
    return [(0, st) for st in rs]


@model("map_copy", "set_copy")
def m_map_copy(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    oid = E.new_heap(s, "map", None, r[1].x, "%s:%d" % (node.file, node.line))
    return [(("p", oid, ()), s)]


def map_live(E, s, o):
    """entries of a map with known keys, in a fixed order"""
    it = I()
    out = []
    for e in o.x:
        if e[0] in ("base", "hv"):
            raise it.Undecided("iteration over an unknown map")
        if e[0] == "removed":
            k = e[1]
            keep = []
            for x in out:
                c = keys_equal(E, s, x[0], k)
                if not isinstance(c, int):
                    raise it.Undecided("iteration over a map with an unknown key")
                if not c:
                    keep.append(x)
            out = keep
        else:
            out.append(e)
    return out


@model("map_iter_begin")
def m_map_iter_begin(E, s, a, node):
    r = mapobj(E, s, a[0], node)
    if r is None:
        return []
    oid = E.new_heap(s, "heap", None, None, "%s:%d" % (node.file, node.line))
    s.objs[oid].f[("index",)] = 0
    return [(("p", oid, ()), s)]


def iter_at(E, s, a, node):
    r = mapobj(E, s, a[1], node)
    if r is None or not (isinstance(a[0], tuple) and a[0][0] == "p"):
        return None
    io = s.objs.get(a[0][1])
    if io is None:
        return None
    if io.freed:
        E.finding(s, "use-after-free", node, "iterator used after its release")
    return io.f[("index",)], map_live(E, s, r[1])


@model("map_iter_next")
def m_map_iter_next(E, s, a, node):
    x = iter_at(E, s, a, node)
    if x is None:
        return []
    s.wobj(a[0][1]).f[("index",)] = x[0] + 1
    return [(a[0], s)]


@model("map_iter_end")
def m_map_iter_end(E, s, a, node):
    x = iter_at(E, s, a, node)
    if x is None:
        return []
    end = 1 if x[0] >= len(x[1]) else 0
    if end:
        s.wobj(a[0][1]).freed = True
    return [(end, s)]


@model("map_iter_exit")
def m_map_iter_exit(E, s, a, node):
    return m_free(E, s, a, node)


@model("map_iter_key")
def m_map_iter_key(E, s, a, node):
    x = iter_at(E, s, a, node)
    if x is None:
        return []
    if x[0] >= len(x[1]):
        return [(0, s)]
    return [(x[1][x[0]][2], s)]


@model("map_iter_value")
def m_map_iter_value(E, s, a, node):
    x = iter_at(E, s, a, node)
    if x is None:
        return []
    if x[0] >= len(x[1]):
        return [(0, s)]
    return [(x[1][x[0]][1], s)]


# ------------------------------------------------------------------ copies / releases of unknown objects
def generic_copy(E, s, a, node):
    """copy of an input object we know only by name: same content, new identity"""
    v = a[0]
    if isinstance(v, tuple) and not I().is_ptr(v):
        it = I()
        d = E.dom(s, v)
        if d.const() == 0:
            E.finding(s, "null-deref", node, "copy of null %s" % it.show(v))
            return E.dead(s, "null-deref", node)
        if d.has(0):
            if E.maybe_null(s, v):
                E.finding(s, "maybe-null-deref", node, "%s may be null here" % it.show(v))
            E.assume(s, v, it.Dom(None, -it.INF, it.INF, frozenset([0])))
        n = s.fresh("cp")
        c = ("cp", n, v)
        o = s.objs.get(("D", v))
        if o is not None and o.f:
            # fields already replaced in the original are carried over
            no = it.Obj("sym", None, c)
            for p, x in o.f.items():
                no.f[p] = x
            s.put(("D", c), no)
        return [(c, s)]
    return None


def generic_delete(E, s, a, node):
    v = a[0]
    if isinstance(v, tuple) and not I().is_ptr(v):
        d = E.dom(s, v)
        if d.const() == 0:
            E.finding(s, "null-deref", node, "release of null %s" % I().show(v))
            return E.dead(s, "null-deref", node)
        return m_free(E, s, a, node)
    if not E.check_mem and isinstance(v, tuple) and v[0] == "p":
        o = s.objs.get(v[1])
        if o is not None:
            if o.freed:
                E.finding(s, "double-free", node, "object allocated at %s is released twice" % (o.site,))
            s.wobj(v[1]).freed = True
        return [(0, s)]
    return None


def install_generic(prog):
    for (_, n), fn in prog.funcs.items():
        if n in BASE_MODELS:
            continue
        if n.endswith("_copy"):
            BASE_MODELS[n] = generic_copy
        elif n.startswith("delete_"):
            BASE_MODELS[n] = generic_delete


SET_MODELS = ("new_set", "set_add", "set_contains", "set_remove", "delete_set", "set_copy")


def real_sets(E):
    """interpret src/set/set.c itself (sets with known members) instead of treating a set as a map with unknown members"""
    for n in SET_MODELS:
        E.models.pop(n, None)


def real_containers(E, vectors=False):
    """interpret the containers' own source on containers with known contents"""
    import re
    pat = r"(new_map|new_set|delete_map|delete_set|map_\w+|set_\w+|mapcell_copy|delete_mapcell)$"
    if vectors:
        pat = r"(new_vector|delete_vector|vector_\w+|" + pat[1:]
    for n in list(E.models):
        if re.match(pat, n):
            E.models.pop(n)

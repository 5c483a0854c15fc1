"""Bit-vector terms in a normal form, shared by the x86-64 meaning and the meaning of the intermediate code.
A term is a tuple whose second item is its width in bytes; equal terms denote equal values for all inputs."""

COMM = {"add", "mul", "and", "or", "xor"}
PASS = {"add", "sub", "mul", "and", "or", "xor", "neg", "not"}


def w_(t):
    return t[1]


def c(w, v):
    return ("c", w, v & ((1 << (8 * w)) - 1))


def x(w, name):
    return ("x", w, name)


def signed(t):
    v, w = t[2], t[1]
    return v - (1 << (8 * w)) if v >> (8 * w - 1) else v


def lo(w, t):
    W = t[1]
    if W == w:
        return t
    assert w < W, (w, t)
    k = t[0]
    if k == "c":
        return c(w, t[2])
    if k in ("zx", "sx"):
        i = t[2]
        return lo(w, i) if i[1] >= w else ext(w, i, k == "zx")
    if k == "lo":
        return lo(w, t[2])
    if k in PASS:
        return op(k, w, *[lo(w, a) for a in t[2:]])
    if k == "ins":
        if w <= t[2][1]:
            return lo(w, t[2])
    if k == "b":
        return ("b", w, t[2])
    if k in ("sar", "shr") and isinstance(t[3], int):
        i = t[2]
        if i[0] == ("sx" if k == "sar" else "zx") and i[2][1] == w and t[3] < 8 * w:
            return op(k, w, i[2], t[3])
    return ("lo", w, t)


def ext(w, t, u):
    W = t[1]
    if W == w:
        return t
    if W > w:
        return lo(w, t)
    k = t[0]
    if k == "c":
        return c(w, t[2] if u else signed(t))
    if k == "b":
        return ("b", w, t[2])
    if k == "zx":
        return ("zx", w, t[2])
    if k == "sx" and not u:
        return ("sx", w, t[2])
    return ("zx" if u else "sx", w, t)


def ins(old, v):
    """64-bit register whose low bytes are replaced by v"""
    if v[1] == 8:
        return v
    if v[1] == 4:
        return ext(8, v, 1)
    if old[0] == "ins" and old[2][1] <= v[1]:
        old = old[3]
    return ("ins", 8, v, old)


def op(k, w, *a):
    a = list(a)
    if k in ("shl", "sar", "shr"):
        n = a[1]
        if isinstance(n, tuple) and n[0] == "c":
            n = n[2]
        if isinstance(n, int):
            n &= 63 if w == 8 else 31
            a[1] = n
            if n == 0:
                return a[0]
            if k == "shl":
                return op("mul", w, a[0], c(w, 1 << n))
            if a[0][0] == "c":
                v = signed(a[0]) if k == "sar" else a[0][2]
                return c(w, v >> n)
        else:
            a[1] = lo(1, n)   # counts are below the width
        return (k, w) + tuple(a)
    if k == "sub":
        if a[0] == a[1]:
            return c(w, 0)
        if a[1][0] == "c":
            return op("add", w, a[0], c(w, -a[1][2]))
        if a[1][0] == "add" and a[1][3][0] == "c":
            return op("add", w, op("sub", w, a[0], a[1][2]), c(w, -a[1][3][2]))
        if a[0][0] == "c" and a[0][2] == 0:
            return op("neg", w, a[1])
        return (k, w) + tuple(a)
    if k in ("neg", "not"):
        if a[0][0] == "c":
            return c(w, -a[0][2] if k == "neg" else ~a[0][2])
        if a[0][0] == k:
            return a[0][2]
        return (k, w, a[0])
    if k in COMM:
        if a[0][0] == "c" and a[1][0] == "c":
            p, q = a[0][2], a[1][2]
            return c(w, {"add": p + q, "mul": p * q, "and": p & q, "or": p | q, "xor": p ^ q}[k])
        # constants last, operands ordered
        if a[0][0] == "c":
            a.reverse()
        elif a[1][0] != "c" and repr(a[0]) > repr(a[1]):
            a.reverse()
        if a[1][0] == "c":
            v = a[1][2]
            if k in ("add", "or", "xor") and v == 0 or k == "mul" and v == 1:
                return a[0]
            if k in ("mul", "and") and v == 0:
                return c(w, 0)
            if k == "and" and v == (1 << 8 * w) - 1:
                return a[0]
            if k == "xor" and v == (1 << 8 * w) - 1:
                return op("not", w, a[0])
            if k == "mul" and v == (1 << 8 * w) - 1:
                return op("neg", w, a[0])
            if a[0][0] == k and a[0][3][0] == "c":
                return op(k, w, a[0][2], op(k, w, a[0][3], a[1]))
        if a[0] == a[1]:
            if k == "xor":
                return c(w, 0)
            if k in ("and", "or"):
                return a[0]
        return (k, w, a[0], a[1])
    return (k, w) + tuple(a)


def narrow(k, a, b):
    """compare at the smallest width that gives the same answer"""
    def strip(t):
        return t[2] if t[0] in ("zx", "sx") else None
    for s, t in ((a, b), (b, a)):
        i = strip(s)
        if i is None:
            continue
        z = s[0] == "zx"
        if t[0] == s[0] and strip(t)[1] == i[1]:
            j = strip(t)
        elif t[0] == "c":
            j = c(i[1], t[2])
            if ext(s[1], j, z) != t:
                continue
        else:
            continue
        if k == "slt" and z:
            k = "ult"
        elif k == "ult" and not z:
            continue
        return (k, i, j) if s is a else (k, j, i)
    return k, a, b


def cond(k, a, b):
    """-> (base condition term, polarity).  k: eq ne slt sle sgt sge ult ule ugt uge"""
    pol = True
    if k == "ne":
        k, pol = "eq", False
    elif k in ("sgt", "ugt"):
        k, a, b = k[0] + "lt", b, a
    elif k in ("sge", "uge"):
        k, pol = k[0] + "lt", False
    elif k in ("sle", "ule"):
        k, a, b, pol = k[0] + "lt", b, a, False
    k, a, b = narrow(k, a, b)
    if a[0] == "c" and b[0] == "c":
        r = {"eq": a[2] == b[2], "slt": signed(a) < signed(b), "ult": a[2] < b[2]}[k]
        return ("const", 0, r == pol), True
    if k == "eq":
        if b[0] != "c" and (a[0] == "c" or repr(a) > repr(b)):
            a, b = b, a
        # a condition compared with 0 or 1
        if a[0] == "b" and b[0] == "c" and b[2] in (0, 1):
            base, p = a[2]
            return base, (p == (b[2] == 1)) == pol
    if k == "ult" and b[0] == "c" and b[2] == 0:
        return ("const", 0, not pol), True
    if k == "ult" and b[0] == "c" and b[2] == 1:
        return cond("eq" if pol else "ne", a, c(b[1], 0))
    if k == "ult" and a[0] == "c" and a[2] == 0:
        return cond("ne" if pol else "eq", b, c(a[1], 0))
    return (k, a, b), pol


def boolean(w, cd):
    base, pol = cd
    if base[0] == "const":
        return c(w, 1 if base[2] == pol else 0)
    return ("b", w, (base, pol))


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return "%d" % signed(t)
    if k == "x":
        return str(t[2])
    if k in ("zx", "sx"):
        return "%s%d(%s)" % (k, 8 * t[1], show(t[2]))
    if k == "lo":
        return "low%d(%s)" % (8 * t[1], show(t[2]))
    if k == "b":
        return "%s%s" % ("" if t[2][1] else "!", show_cond(t[2][0]))
    if k == "ld":
        return "[%s]%d" % (show(t[2]), 8 * t[1])
    if k == "ins":
        return "ins(%s, %s)" % (show(t[2]), show(t[3]))
    return "%s%d(%s)" % (k, 8 * t[1], ", ".join(show(a) for a in t[2:]))


def show_cond(b):
    if b[0] == "const":
        return str(b[2])
    return "(%s %s %s)" % (show(b[1]), {"eq": "==", "slt": "<", "ult": "<u"}[b[0]], show(b[2]))


# ---- effects
def canon(events):
    """runs of constant stores to the frame become byte maps, so that the grouping of bytes does not matter"""
    out, run = [], {}

    def flush():
        if run:
            out.append(("bytes", tuple(sorted(run.items()))))
            run.clear()
    for e in events:
        if e[0] == "store" and e[3][0] == "c" and frame_off(e[1]) is not None:
            k = frame_off(e[1])
            for i in range(e[2]):
                run[k + i] = (e[3][2] >> (8 * i)) & 255
            continue
        flush()
        out.append(e)
    flush()
    return out


SP = x(8, "SP")


def frame_off(a):
    """entry stack pointer relative address -> offset"""
    if a == SP:
        return 0
    if a[0] == "add" and a[2] == SP and a[3][0] == "c":
        return signed(a[3])
    return None


def spa(k):
    return op("add", 8, SP, c(8, k))


def version(events):
    n = sum(1 for e in events if e[0] == "call")
    i = max([j for j, e in enumerate(events) if e[0] == "call"], default=-1)
    return (n, hash(repr(canon(events[i + 1:]))))

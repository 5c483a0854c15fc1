"""P21: the assembly text says what the compiler means: global objects, string literals, names and operands."""
from rules.back_common import *
from report import pmap

META = {"level": "other", "explanation":
        "Abstract interpretation of allocator, x86-64 generator and printer on data sequences (every directive, values at the limits of "
        "every type, every byte value in a string, alone and before a digit, sequences of variables and functions in every order, both "
        "visibilities); the text is read back by the assembler's documented rules (sections, symbol binding, directives, escapes, numbers) into bytes per "
        "symbol and compared with the bytes the intermediate data stands for. Every register number and width, operand form and instruction kind "
        "is printed and compared with the architecture's name.",
        "assumptions": ["GNU as reads .ascii escapes as documented: \\\\b \\\\f \\\\n \\\\r \\\\t \\\\v \\\\\\\" \\\\\\\\ , up to three octal digits, \\\\x; another character stands for itself"]}


class Text(Exception):
    pass


ESC = {"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, '"': 34}


def ascii_bytes(t):
    t = t.strip()
    if len(t) < 2 or t[0] != '"':
        raise Text("string directive without a string: %s" % t[:60])
    out = bytearray()
    i = 1
    while True:
        if i >= len(t):
            raise Text("the string does not end")
        c = t[i]
        if c == '"':
            if t[i + 1:].strip():
                raise Text("text after the string: %s" % t[i:][:40])
            return bytes(out)
        if c == "\n":
            raise Text("line break in the string")
        if c != "\\":
            if ord(c) > 255:
                raise Text("character %r" % c)
            out.append(ord(c))
            i += 1
            continue
        i += 1
        if i >= len(t):
            raise Text("the string does not end")
        c = t[i]
        if c in "01234567":
            v, n = 0, 0
            while n < 3 and i < len(t) and t[i] in "01234567":
                v, i, n = v * 8 + int(t[i]), i + 1, n + 1
            out.append(v & 255)
        elif c in "xX":
            i += 1
            v = 0
            while i < len(t) and t[i] in "0123456789abcdefABCDEF":
                v, i = v * 16 + int(t[i], 16), i + 1
            out.append(v & 255)
        else:
            out.append(ESC.get(c, ord(c)))
            i += 1


WID = {".byte": 1, ".word": 2, ".short": 2, ".value": 2, ".2byte": 2, ".long": 4, ".int": 4, ".4byte": 4, ".quad": 8, ".8byte": 8}


def numval(t):
    t = t.strip()
    neg = t.startswith("-")
    u = t[1:] if neg else t
    try:
        v = int(u, 16) if u.lower().startswith("0x") else int(u, 8) if u.startswith("0") and len(u) > 1 else int(u)
    except ValueError:
        raise Text("not a number: %s" % t)
    return -v if neg else v


def lines_of(text):
    out, cur, q = [], "", False
    i = 0
    while i < len(text):
        c = text[i]
        if c == "\\" and q:
            cur += text[i:i + 2]
            i += 2
            continue
        if c == '"':
            q = not q
        if c == "\n":
            if q:
                raise Text("line break inside a string")
            out.append(cur)
            cur = ""
            i += 1
            continue
        cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


def assemble(text):
    """-> symbol -> (section, binding, bytes or list of instruction lines)"""
    sec, syms, bind, order, cur = ".text", {}, {}, [], None
    for ln in lines_of(text):
        s = ln.strip()
        if not s:
            continue
        w = s.split(None, 1)
        d, rest = w[0], (w[1] if len(w) > 1 else "")
        if d in (".text", ".data", ".bss"):
            sec = d
            continue
        if d == ".section":
            sec = rest.split(",")[0].strip()
            continue
        if d == ".globl" or d == ".global":
            bind[rest.strip()] = "GLOBAL"
            continue
        if d == ".local":
            bind[rest.strip()] = "LOCAL"
            continue
        if d in (".type", ".size", ".align", ".p2align", ".balign", ".file", ".ident"):
            continue
        if s.endswith(":") and '"' not in s:
            n = s[:-1].strip()
            if n in syms:
                raise Text("the symbol %s is defined twice" % n)
            syms[n] = [sec, bytearray(), []]
            cur = n
            continue
        if d.startswith("."):
            if cur is None:
                raise Text("data before any symbol: %s" % s)
            b = syms[cur][1]
            if syms[cur][0] != sec:
                raise Text("%s continues in another section" % cur)
            if d in WID:
                for part in rest.split(","):
                    v = numval(part)
                    n = WID[d]
                    if not -(1 << 8 * n - 1) <= v < 1 << 8 * n:
                        raise Text("%s: the value does not fit %d bytes" % (s, n))
                    b += (v & (1 << 8 * n) - 1).to_bytes(n, "little")
            elif d in (".zero", ".skip", ".space"):
                v = numval(rest)
                if v < 0:
                    raise Text("negative size: %s" % s)
                b += bytes(v)
            elif d == ".ascii":
                b += ascii_bytes(rest)
            elif d in (".asciz", ".string"):
                b += ascii_bytes(rest) + b"\0"
            else:
                raise Text("unknown directive: %s" % s)
            continue
        if cur is None:
            raise Text("an instruction before any symbol")
        syms[cur][2].append(s)
    return {k: (v[0], bind.get(k, "NONE"), bytes(v[1]), v[2]) for k, v in syms.items()}


WB = {"BYTE": 1, "WORD": 2, "LONG": 4, "QUAD": 8}


def expected(p):
    out = {}
    cur = None
    for q in p:
        if q[0] in ("flabel", "vlabel"):
            cur = q[1]
            out[cur] = [".text" if q[0] == "flabel" else ".data", q[2], b""]
        elif q[0] == "data":
            if q[1] == "STR":
                out[cur][2] += q[2]
            elif q[1] == "ZERO":
                out[cur][2] += bytes(q[2])
            else:
                out[cur][2] += (q[2] & (1 << 8 * WB[q[1]]) - 1).to_bytes(WB[q[1]], "little")
    return out


LIM = {"INTEGER_INT": (-2**31, 2**31 - 1), "INTEGER_UNSIGNED_INT": (0, 2**32 - 1), "INTEGER_LONG": (-2**63, 2**63 - 1),
       "INTEGER_UNSIGNED_LONG": (0, 2**64 - 1), "INTEGER_LONGLONG": (-2**63, 2**63 - 1), "INTEGER_UNSIGNED_LONGLONG": (0, 2**64 - 1)}


def V(n, vis="GLOBAL"):
    return ("vlabel", n, vis)


def D(k, v, ty=None):
    return ("data", k, v, ty)


def fun(n, lab):
    return [F(n), I("ENTER", None, num(0, 16)), I("STRET", None, num(4, 7)), I("JMP", lab_(lab)), L(lab), I("LEAVE", None, num(0, 16))]


def cases(tier):
    for kind, tys in (("BYTE", ("INTEGER_INT",)), ("WORD", ("INTEGER_INT",)), ("LONG", ("INTEGER_INT", "INTEGER_UNSIGNED_INT")),
                      ("QUAD", ("INTEGER_INT", "INTEGER_LONG", "INTEGER_UNSIGNED_LONG", "INTEGER_LONGLONG", "INTEGER_UNSIGNED_LONGLONG"))):
        for ty in tys:
            lo_, hi = LIM[ty]
            n = WB[kind]
            vals = {0, 1, 7, 10, 100, lo_, hi, lo_ + 1, hi - 1, 2**31 - 1, 2**31, 2**32, 12345678901, -1, -128, 127, 255, 65535, -32768}
            for v in sorted(v for v in vals if lo_ <= v <= hi and -(1 << 8 * n - 1) <= v < 1 << 8 * n):
                yield "data %s %s %d" % (kind, ty, v), [V("v"), D(kind, v, ty)]
    for n in (0, 1, 3, 8, 15, 4096, 2**31 - 1):
        if n < 10**6:
            yield "zero %d bytes" % n, [V("v"), D("ZERO", n, "INTEGER_INT")]
    for b in range(256):
        yield "string byte %d" % b, [V(".LC0", "NONE"), D("STR", bytes([b]) + b"\0")]
        if b < 32 or b > 126 or chr(b) in "0789'\"\\?%$":
            yield "string byte %d before a digit" % b, [V(".LC0", "NONE"), D("STR", bytes([b]) + b"7z\0")]
            yield "string byte %d after another" % b, [V(".LC0", "NONE"), D("STR", b"%s" + bytes([b, b]) + b"\0")]
    yield "string with zero bytes inside", [V(".LC0", "NONE"), D("STR", b"ab\0cd\0\0e\0")]
    for n in (0, 1, 2, 30, 60, 150, 190, 240):
        yield "string of %d bytes" % (n + 1), [V(".LC1", "NONE"), D("STR", bytes(32 + i % 90 for i in range(n)) + b"\0")]
    for n in (1, 20, 42, 43, 49, 50, 63, 95, 96, 150, 190, 250, 400):
        yield "name of %d characters" % n, [V("a" * n), D("LONG", 3, "INTEGER_INT")] + fun("f" * n, ".L0")
    one_ = {"v": lambda i: [V("v%d" % i), D("LONG", i, "INTEGER_INT"), D("ZERO", 4, "INTEGER_INT")],
            "s": lambda i: [V(".LC%d" % i, "NONE"), D("STR", b"text%d\0" % i)],
            "l": lambda i: [V("l%d" % i, "LOCAL"), D("QUAD", -i, "INTEGER_LONG"), D("BYTE", i, "INTEGER_INT"), D("BYTE", 1, "INTEGER_INT")],
            "f": lambda i: fun("f%d" % i, ".L%d" % i)}
    import itertools
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for ks in itertools.product("vslf", repeat=n):
            yield "sequence " + "".join(ks), [x for i, k in enumerate(ks) for x in one_[k](i)]
    yield "zero bytes of code", []


def one_data(R, key, p):
    rule = key.split()[0]
    text, E = compile_(p)
    R.saw(E.visited)
    for f in E.findings:
        R.bad(rule, key, "src/x64", "memory: %s %s:%s %s" % tuple(f[:4]))
    if text is None:
        R.bad(rule, key, "src/x64gen", "no assembly is produced")
        return
    try:
        got = assemble(text)
    except Text as e:
        R.bad(rule, key, "src/x64", str(e) + " | " + text.replace("\n", " ; ")[:300])
        return
    bad = []
    want = expected(p)
    for n, (sec, vis, bs) in want.items():
        if n not in got:
            bad.append("the symbol %s is missing" % n[:60])
            continue
        g = got[n]
        if g[0] != sec and not (sec == ".data" and g[0] in (".bss", ".rodata")):
            bad.append("%s lies in %s" % (n, g[0]))
        if (vis == "GLOBAL") != (g[1] == "GLOBAL"):
            bad.append("%s has %s binding" % (n, g[1].lower()))
        if bs != g[2] and sec == ".data":
            bad.append("%s holds %s, not %s" % (n, g[2][:20], bs[:20]))
        if sec == ".text" and not g[3]:
            bad.append("the function %s has no code" % n)
        if sec == ".data" and g[3]:
            bad.append("the object %s has code" % n)
    extra = [n for n in got if n not in want and not n.startswith(".L")]
    if extra:
        bad.append("symbols that were not asked for: %s" % extra[:3])
    if bad:
        R.bad(rule, key, "src/x64, src/x64gen", "; ".join(bad[:3]) + " | " + text.replace("\n", " ; ")[:300])
    else:
        R.ok(rule, key)


# ------------------------------------------------------------------ names
REGS = "AX BX CX DX SP BP SI DI R8 R9 R10 R11 R12 R13 R14 R15".split()


def regname(r, w):
    if r.startswith("R"):
        return "%" + r.lower() + {1: "b", 2: "w", 4: "d", 8: ""}[w]
    b = r.lower()
    if w == 1:
        return "%" + (b[0] + "l" if b[1] == "x" else b + "l")
    return "%" + {2: "", 4: "e", 8: "r"}[w] + b


INSTS = {"MOVX": "mov", "LEAX": "lea", "PUSHX": "push", "POPX": "pop", "ADDX": "add", "SUBX": "sub", "IMULX": "imul", "DIVX": "div", "IDIVX": "idiv",
         "NEGX": "neg", "ANDX": "and", "NOTX": "not", "ORX": "or", "XORX": "xor", "SALX": "sal", "SARX": "sar", "SHRX": "shr", "CMPX": "cmp", "MOVABSX": "movabs"}
SFX = {1: "b", 2: "w", 4: "l", 8: "q"}
XS = {1: "X64_SUFFIX_BYTE", 2: "X64_SUFFIX_WORD", 4: "X64_SUFFIX_LONG", 8: "X64_SUFFIX_QUAD"}
PLAIN = ["SETE", "SETNE", "SETA", "SETAE", "SETB", "SETBE", "SETG", "SETGE", "SETL", "SETLE", "JMP", "JE", "JNE", "JA", "JAE", "JB", "JBE", "JG",
         "JGE", "JL", "JLE", "CALL", "RET", "CQTO"]


def names():
    for r in REGS:
        for w in (1, 2, 4, 8):
            yield "register %s %d bits" % (r, 8 * w), ("reg", r, w), regname(r, w)
        yield "address in %s" % r, ("ptr", r), "(%s)" % regname(r, 8)
        yield "call through %s" % r, ("jptr", r), "*%s" % regname(r, 8)
    for o in (0, 1, -16, 8, 127, 128, 100000, 2**31 - 1):
        yield "local object at %d" % o, ("mem", o), "%d(%%rbp)" % -o
    yield "global object", ("lab", "gv"), "gv(%rip)"
    yield "jump target", ("jlab", ".L12"), ".L12"
    for v in (0, 1, -1, 2**31 - 1, -2**31, 2**63 - 1, -2**63):
        yield "constant %d" % v, ("int", v, "INTEGER_LONG"), "$%d" % v
    yield "constant 2^64-1", ("int", 2**64 - 1, "INTEGER_UNSIGNED_LONG"), "$%d" % (2**64 - 1)
    # every instruction has its name, with the suffix of its operands
    present = {n for n, _ in prog().enumtypes.get("X64InstType", ())}
    for k, nm in INSTS.items():
        if "X64_INST_" + k not in present:
            continue
        for w in (1, 2, 4, 8):
            if k in ("PUSHX", "POPX", "MOVABSX") and w != 8 or k == "IMULX" and w == 1 or k == "LEAX" and w < 4:
                continue
            for form in ("rr", "ir", "rm", "mr"):
                yield "instruction %s %d bits %s" % (k, 8 * w, form), ("inst", k, w, form), None
    for k in PLAIN:
        if "X64_INST_" + k in present:
            yield "instruction %s" % k, ("plain", k), "\t" + k.lower() + ("\tgv\n" if k not in ("RET", "CQTO") else "\n")
    for a, b in ((1, 2), (1, 4), (1, 8), (2, 4), (2, 8), (4, 8)):
        for k in ("MOVSXX", "MOVZXX"):
            yield "instruction %s %d to %d" % (k, 8 * a, 8 * b), ("ext", k, a, b), "\t%s%s%s\t%s, %s\n" % (
                k.lower()[:4], SFX[a], SFX[b], regname("CX", a), regname("R9", b))


def one_name(R, key, what, want):
    B = Back()
    L_ = B.lab
    rule = "names"

    def r(n, w):
        return L_.call("new_reg_x64ope", ev(XS[w]), ev(n + "_REG_ID"))

    k = what[0]
    fn = "x64ope_tostring"
    if k == "reg":
        o = r(what[1], what[2])
    elif k == "ptr":
        o = L_.call("new_ptr_x64ope", ev(what[1] + "_REG_ID"))
    elif k == "jptr":
        o = L_.call("new_jptr_x64ope", ev(what[1] + "_REG_ID"))
    elif k == "mem":
        o = L_.call("new_mem_x64ope", what[1])
    elif k == "lab":
        o = L_.call("new_label_x64ope", L_.text(what[1]))
    elif k == "jlab":
        o = L_.call("new_jlabel_x64ope", L_.text(what[1]))
    elif k == "int":
        o = L_.call("new_unsigned_int_x64ope" if "UNS" in what[2] else "new_signed_int_x64ope", ev("X64_SUFFIX_QUAD"), ev(what[2]), what[1])
    else:
        fn = "x64_tostring"
        it = ev("X64_INST_" + what[1])
        if k == "plain":
            dst = src = 0
            if what[1] not in ("RET", "CQTO"):
                x_ = L_.call("new_jlabel_x64ope", L_.text("gv"))
                src, dst = (x_, 0) if what[1] == "CALL" else (0, x_)
        elif k == "ext":
            src, dst = r("CX", what[2]), r("R9", what[3])
        else:
            w, form = what[2], what[3]
            mk = {"r": lambda n: r(n, w), "i": lambda n: L_.call("new_signed_int_x64ope", ev(XS[w]), ev("INTEGER_INT"), 5),
                  "m": lambda n: L_.call("new_mem_x64ope", 8)}
            tx = {"r": lambda n: regname(n, w), "i": lambda n: "$5", "m": lambda n: "-8(%rbp)"}
            nm = INSTS[what[1]] + SFX[w]
            if what[1] in ("PUSHX", "POPX", "NEGX", "NOTX", "DIVX", "IDIVX"):
                f = {"rr": "r", "ir": "i", "rm": "r", "mr": "r"}[form]
                if what[1] != "PUSHX":
                    f = "r"
                o_ = mk[f]("SI")
                src, dst = (o_, 0) if what[1] in ("PUSHX", "DIVX", "IDIVX") else (0, o_)
                want = "\t%s\t%s\n" % (nm, tx[f]("SI"))
            else:
                src, dst = mk[form[0]]("DX"), mk[form[1]]("R13")
                want = "\t%s\t%s, %s\n" % (nm, tx[form[0]]("DX"), tx[form[1]]("R13"))
        o = L_.call("new_inst_x64", it, src, dst)
    rs = B.E.call(("fn", fn, None), [o], L_.s, FAKE)
    R.saw(B.E.visited)
    if len(rs) != 1:
        R.bad(rule, key, "src/x64", "%d outcomes" % len(rs)) if not rs else R.unk(rule, key, "several outcomes")
        return
    v, s = rs[0]
    t = interp.pieces_text(interp.text_of(B.E, s, v))
    if t is None:
        R.unk(rule, key, "text is not a constant")
    elif " ".join(t.split()) != " ".join(want.split()):
        R.bad(rule, key, "src/x64", "written as %r, must be %r" % (t, want))
    else:
        R.ok(rule, key)


def go(R, key, kind, *a):
    try:
        (one_name if kind == "name" else one_data)(R, key, *a)
    except Undecided as x:
        R.unk(key.split()[0], key, x)


def run(R, tier):
    need("x64_tostring")
    pmap(R, go, [(k, "data", p) for k, p in cases(tier)] + [(k, "name", w, t) for k, w, t in names()])

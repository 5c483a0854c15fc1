"""Meaning of AT&T x86-64 assembly text (the subset an integer-only compiler can emit), System V calling convention."""
import re
from terms import *

R64 = ["rax", "rbx", "rcx", "rdx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
NAMES = {}
for _r in R64:
    if _r in ("rax", "rbx", "rcx", "rdx"):
        n8, n16, n32 = _r[1] + "l", _r[1:], "e" + _r[1:]
    elif _r in ("rsp", "rbp", "rsi", "rdi"):
        n8, n16, n32 = _r[1:] + "l", _r[1:], "e" + _r[1:]
    else:
        n8, n16, n32 = _r + "b", _r + "w", _r + "d"
    NAMES.update({n8: (_r, 1), n16: (_r, 2), n32: (_r, 4), _r: (_r, 8)})
ARGS = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]
CALLEE = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
CALLER = ["rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"]
SUF = {"b": 1, "w": 2, "l": 4, "q": 8}
CC = {"e": "eq", "z": "eq", "ne": "ne", "nz": "ne", "l": "slt", "nge": "slt", "le": "sle", "ng": "sle", "g": "sgt", "nle": "sgt",
      "ge": "sge", "nl": "sge", "b": "ult", "c": "ult", "nae": "ult", "be": "ule", "na": "ule", "a": "ugt", "nbe": "ugt", "ae": "uge", "nb": "uge",
      "nc": "uge", "s": "sltz", "ns": "sgez"}


class Bad(Exception):
    """the text is not what the architecture accepts, or breaks the machine protocol"""

    def __init__(self, kind, why):
        Exception.__init__(self, why)
        self.kind = kind


class Unknown(Exception):
    pass


OPND = re.compile(r"""^(?:
    \$(?P<imm>-?\d+|0x[0-9a-f]+)
  | %(?P<reg>\w+)
  | \*%(?P<jreg>\w+)
  | (?P<sym>[A-Za-z_.$][\w.$]*)\(%rip\)
  | (?P<disp>-?\d+)?\(%(?P<base>\w+)(?:,\s*%(?P<idx>\w+)(?:,\s*(?P<scale>[1248]))?)?\)
  | (?P<lab>[A-Za-z_.$][\w.$]*)
  )$""", re.X)


def operand(t, line):
    m = OPND.match(t.strip())
    if not m:
        raise Bad("encoding", "'%s' has no such operand form: %s" % (line, t))
    g = m.groupdict()
    if g["imm"] is not None:
        return ("imm", int(g["imm"], 0))
    for k in ("reg", "jreg"):
        if g[k] is not None:
            if g[k] not in NAMES:
                raise Bad("encoding", "'%s': no register %%%s" % (line, g[k]))
            return (k,) + NAMES[g[k]]
    if g["sym"] is not None:
        return ("mem", ("sym", g["sym"]))
    if g["base"] is not None:
        for r in (g["base"], g["idx"]):
            if r is not None and (r not in NAMES or NAMES[r][1] != 8):
                raise Bad("encoding", "'%s': %%%s cannot hold an address" % (line, r))
        return ("mem", ("addr", int(g["disp"] or 0), g["base"], g["idx"], int(g["scale"] or 1)))
    return ("lab", g["lab"])


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def parse(text):
    """-> list of ("label", name) | ("dir", name, rest) | ("ins", mnemonic, operand texts, line)"""
    out = []
    for line in text.split("\n"):
        s = line.strip()
        if not s or s.startswith("#"):
            continue
        m = re.match(r"^([A-Za-z_.$][\w.$]*):$", s)
        if m:
            out.append(("label", m.group(1)))
            continue
        p = s.split(None, 1)
        if p[0].startswith("."):
            out.append(("dir", p[0], p[1] if len(p) > 1 else ""))
            continue
        out.append(("ins", p[0], [o.strip() for o in split(p[1])] if len(p) > 1 else [], re.sub(r"\s+", " ", s)))
    return out


TWO = ("mov", "add", "sub", "and", "or", "xor", "cmp", "test", "imul", "lea", "sal", "shl", "sar", "shr")
ONE = ("neg", "not", "inc", "dec", "div", "idiv", "mul", "push", "pop", "imul", "sal", "shl", "sar", "shr")


class Mach:
    def __init__(self, text, name, frame, max_dec=6, max_visit=3):
        code = parse(text)
        i = [k for k, q in enumerate(code) if q == ("label", name)]
        if len(i) != 1:
            raise Bad("encoding", "the label %s is defined %d times" % (name, len(i)))
        self.code = code
        self.lab = {}
        for k, q in enumerate(code):
            if q[0] == "label":
                if q[1] in self.lab:
                    raise Bad("encoding", "the label %s is defined twice" % q[1])
                self.lab[q[1]] = k
        self.start = i[0]
        self.frame = frame
        self.max_dec, self.max_visit = max_dec, max_visit
        self.paths = {}
        self.problems = []

    def run(self):
        regs = {r: x(8, "init_" + r) for r in R64}
        regs["rsp"] = SP
        for i, r in enumerate(ARGS):
            regs[r] = x(8, "arg%d" % i)
        st = {"regs": regs, "stk": {}, "ev": [], "dec": (), "vis": {}, "fl": None, "calls": 0}
        todo = [(self.start + 1, st)]
        while todo:
            pc, st = todo.pop()
            todo += self.go(pc, st)
            if len(self.paths) > 300:
                raise Unknown("too many paths")
        return self.paths

    def fork(self, st):
        n = dict(st)
        for k in ("regs", "vis", "stk"):
            n[k] = dict(st[k])
        n["ev"] = list(st["ev"])
        return n

    def end(self, st, how):
        self.paths[st["dec"]] = (how, st["ev"], st["regs"]["rax"])
        return []

    def prob(self, kind, why):
        if (kind, why) not in self.problems:
            self.problems.append((kind, why))

    # ---- operands
    def addr(self, st, m):
        if m[0] == "sym":
            return x(8, "&" + m[1])
        _, d, b, i, sc = m
        a = op("add", 8, st["regs"][b], c(8, d))
        if i:
            a = op("add", 8, a, op("mul", 8, st["regs"][i], c(8, sc)))
        return a

    def local(self, k, w):
        return -8 - self.frame <= k and k + w <= -8

    def load(self, st, a, w):
        k = frame_off(a)
        if k is not None and not self.local(k, w):
            if k >= 8:
                if (k - 8) % 8 == 0 and w <= 8 and k not in st["stk"]:
                    return lo(w, x(8, "arg%d" % (6 + (k - 8) // 8)))
            for b, v in st["stk"].items():
                if b <= k and k + w <= b + v[1]:
                    if b == k:
                        return lo(w, v)
            return ("x", w, "undefined stack slot %d" % k)
        return ("ld", w, a, version(st["ev"]))

    def store(self, st, a, v, line):
        k = frame_off(a)
        w = v[1]
        if k is not None and not self.local(k, w):
            if k < -8 and k + w > -8 - self.frame:
                self.prob("value", "'%s' writes past the local variables" % line)
            if k < 8 and k + w > 0:
                self.prob("protocol", "'%s' overwrites the return address" % line)
            for b in list(st["stk"]):
                if b < k + w and k < b + st["stk"][b][1]:
                    del st["stk"][b]
            st["stk"][k] = v
            return
        st["ev"].append(("store", a, w, v))

    def size(self, line, suf, ops):
        """operation width from the suffix, checked against the registers"""
        w = SUF.get(suf) if suf else None
        for o in ops:
            if o[0] == "reg":
                if w is None:
                    w = o[2]
                elif o[2] != w:
                    raise Bad("encoding", "'%s': the register does not have the size the instruction says" % line)
        if w is None:
            raise Bad("encoding", "'%s': no operand size" % line)
        return w

    def rd(self, st, o, w, line, imm64=False):
        if o[0] == "imm":
            v = o[1]
            if w == 8 and not imm64:
                s = signed(c(8, v))
                if not -2**31 <= s < 2**31:
                    raise Bad("encoding", "'%s': the constant does not fit the 32-bit immediate field" % line)
            return c(w, v)
        if o[0] == "reg":
            return lo(w, st["regs"][o[1]])
        if o[0] == "mem":
            return self.load(st, self.addr(st, o[1]), w)
        raise Bad("encoding", "'%s': operand" % line)

    def wr(self, st, o, v, line):
        if o[0] == "reg":
            st["regs"][o[1]] = ins(st["regs"][o[1]], v)
        elif o[0] == "mem":
            self.store(st, self.addr(st, o[1]), v, line)
        else:
            raise Bad("encoding", "'%s': the destination is not writable" % line)

    def push(self, st, v, line):
        r = st["regs"]
        r["rsp"] = op("sub", 8, r["rsp"], c(8, 8))
        k = frame_off(r["rsp"])
        if k is None:
            raise Unknown("stack pointer")
        if k >= -8 - self.frame and k < -8:
            self.prob("protocol", "'%s' writes into the local variables" % line)
        for b in list(st["stk"]):
            if b < k + 8 and k < b + st["stk"][b][1]:
                del st["stk"][b]
        st["stk"][k] = v

    def pop(self, st, line):
        r = st["regs"]
        k = frame_off(r["rsp"])
        if k is None:
            raise Unknown("stack pointer")
        v = st["stk"].get(k)
        if v is None or v[1] != 8:
            v = x(8, "undefined stack slot %d" % k) if not self.local(k, 8) else ("ld", 8, r["rsp"], version(st["ev"]))
        r["rsp"] = op("add", 8, r["rsp"], c(8, 8))
        return v

    def cc(self, st, code, line):
        k = CC.get(code)
        fl = st["fl"]
        if k is None:
            raise Bad("encoding", "'%s': no such condition" % line)
        if fl is None:
            raise Unknown("'%s' uses flags of an instruction not modelled" % line)
        how, a, b = fl
        if k in ("sltz", "sgez"):
            if how != "logic":
                raise Unknown(line)
            k = "slt" if k == "sltz" else "sge"
        if how == "res" and k not in ("eq", "ne"):
            raise Unknown("'%s' after arithmetic" % line)
        return cond(k, a, b)

    # ---- execution of one path to its next branch
    def go(self, pc, st):
        while True:
            if pc >= len(self.code):
                raise Bad("protocol", "control runs off the end of the function")
            q = self.code[pc]
            pc += 1
            if q[0] == "dir":
                if q[1] in (".text", ".globl", ".local", ".type", ".size", ".align", ".p2align"):
                    if q[1] == ".text":
                        raise Bad("protocol", "control runs into the next function")
                    continue
                raise Bad("protocol", "control runs into data")
            if q[0] == "label":
                n = st["vis"].get(q[1], 0) + 1
                st["vis"][q[1]] = n
                if n > self.max_visit:
                    return self.end(st, ("cut", q[1]))
                continue
            r = self.step(st, q[1], q[2], q[3])
            if r is None:
                continue
            if r[0] == "ret":
                return self.end(st, ("ret",))
            if r[0] == "jmp":
                pc = self.target(r[1], q[3])
                continue
            base, pol = r[2]
            if base[0] == "const":
                if base[2] == pol:
                    pc = self.target(r[1], q[3])
                continue
            if len(st["dec"]) >= self.max_dec:
                return self.end(st, ("cut", "decisions"))
            t = self.fork(st)
            t["dec"] = st["dec"] + ((base, pol),)
            st["dec"] = st["dec"] + ((base, not pol),)
            return [(self.target(r[1], q[3]), t), (pc, st)]

    def target(self, n, line):
        if n not in self.lab:
            raise Bad("control", "'%s': there is no label %s" % (line, n))
        return self.lab[n]

    def step(self, st, mn, optexts, line):
        regs = st["regs"]
        ops = [operand(t, line) for t in optexts]
        n = len(ops)

        def need(k):
            if n != k:
                raise Bad("encoding", "'%s': %d operands" % (line, n))
        if mn in ("ret", "retq"):
            need(0)
            if regs["rsp"] != SP:
                k = frame_off(regs["rsp"])
                raise Bad("protocol", "'ret' with the stack pointer %s the return address" %
                          ("not at" if k is None else "%d bytes from" % k))
            for r in CALLEE:
                if regs[r] != x(8, "init_" + r):
                    self.prob("protocol", "the callee-saved register %%%s is %s at return" % (r, show(regs[r])))
            return ("ret",)
        if mn in ("leave", "leaveq"):
            regs["rsp"] = regs["rbp"]
            regs["rbp"] = self.pop(st, line)
            return None
        if mn == "nop":
            return None
        if mn == "jmp":
            need(1)
            if ops[0][0] != "lab":
                raise Unknown(line)
            return ("jmp", ops[0][1])
        if mn in ("call", "callq"):
            need(1)
            return self.call(st, ops[0], line)
        m = re.match(r"^j(\w+)$", mn)
        if m and m.group(1) in CC:
            need(1)
            if ops[0][0] != "lab":
                raise Bad("encoding", "'%s': target" % line)
            return ("cj", ops[0][1], self.cc(st, m.group(1), line))
        m = re.match(r"^set(\w+)$", mn)
        if m and m.group(1) in CC:
            need(1)
            if ops[0][0] == "reg" and ops[0][2] != 1:
                raise Bad("encoding", "'%s': not a byte register" % line)
            self.wr(st, ops[0], boolean(1, self.cc(st, m.group(1), line)), line)
            return None
        if mn in ("cltq", "cdqe"):
            regs["rax"] = ext(8, lo(4, regs["rax"]), 0)
            return None
        if mn in ("cwtl", "cwde"):
            regs["rax"] = ins(regs["rax"], ext(4, lo(2, regs["rax"]), 0))
            return None
        if mn in ("cbtw", "cbw"):
            regs["rax"] = ins(regs["rax"], ext(2, lo(1, regs["rax"]), 0))
            return None
        if mn in ("cltd", "cdq"):
            regs["rdx"] = ext(8, op("sar", 4, lo(4, regs["rax"]), 31), 1)
            return None
        if mn in ("cqto", "cqo"):
            regs["rdx"] = op("sar", 8, regs["rax"], 63)
            return None
        if mn in ("cwtd", "cwd"):
            regs["rdx"] = ins(regs["rdx"], op("sar", 2, lo(2, regs["rax"]), 15))
            return None
        if re.match(r"^c[bwlq]t[bwlqd]$", mn):
            raise Bad("encoding", "'%s' is not an x86-64 instruction" % line)
        m = re.match(r"^mov([sz])([bwl])([wlq])$", mn)
        if m:
            need(2)
            w1, w2 = SUF[m.group(2)], SUF[m.group(3)]
            if w1 >= w2 or (m.group(1) == "z" and w1 == 4):
                raise Bad("encoding", "'%s' is not an x86-64 instruction" % line)
            if ops[1][0] != "reg" or ops[1][2] != w2 or ops[0][0] not in ("reg", "mem") or (ops[0][0] == "reg" and ops[0][2] != w1):
                raise Bad("encoding", "'%s': operand sizes" % line)
            self.wr(st, ops[1], ext(w2, self.rd(st, ops[0], w1, line), m.group(1) == "z"), line)
            return None
        if mn == "movabsq":
            need(2)
            if ops[0][0] != "imm" or ops[1][0] != "reg" or ops[1][2] != 8:
                raise Bad("encoding", "'%s': operands" % line)
            regs[ops[1][1]] = c(8, ops[0][1])
            return None
        base, suf = mn, ""
        if mn[-1] in SUF and mn[:-1] in TWO + ONE:
            base, suf = mn[:-1], mn[-1]
        elif mn not in TWO + ONE:
            if re.match(r"^[a-z]+$", mn):
                raise Unknown("'%s'" % line)
            raise Bad("encoding", "'%s' is not an x86-64 instruction" % line)
        if base == "push":
            need(1)
            if ops[0][0] == "reg" and ops[0][2] != 8:
                raise Bad("encoding", "'%s': not a 64-bit register" % line)
            self.push(st, self.rd(st, ops[0], 8, line), line)
            return None
        if base == "pop":
            need(1)
            if ops[0][0] != "reg" or ops[0][2] != 8:
                raise Bad("encoding", "'%s': not a 64-bit register" % line)
            v = self.pop(st, line)
            regs[ops[0][1]] = v
            return None
        mems = sum(1 for o in ops if o[0] == "mem")
        if mems > 1:
            raise Bad("encoding", "'%s': two memory operands" % line)
        if any(o[0] in ("lab", "jreg") for o in ops):
            raise Bad("encoding", "'%s': operand" % line)
        if base == "lea":
            need(2)
            if ops[0][0] != "mem" or ops[1][0] != "reg":
                raise Bad("encoding", "'%s': operands" % line)
            w = self.size(line, suf, ops[1:])
            self.wr(st, ops[1], lo(w, self.addr(st, ops[0][1])), line)
            return None
        if base in ("sal", "shl", "sar", "shr"):
            if n == 1:
                ops = [("imm", 1)] + ops
            elif n != 2:
                need(2)
            if ops[0][0] == "reg":
                if ops[0][1:] != ("rcx", 1):
                    raise Bad("encoding", "'%s': a shift count can only be in %%cl" % line)
                cnt = lo(1, regs["rcx"])
            elif ops[0][0] == "imm":
                cnt = ops[0][1]
                if not 0 <= cnt <= 255:
                    raise Bad("encoding", "'%s': shift count" % line)
            else:
                raise Bad("encoding", "'%s': shift count" % line)
            w = self.size(line, suf, ops[1:])
            self.wr(st, ops[1], op({"sal": "shl"}.get(base, base), w, self.rd(st, ops[1], w, line), cnt), line)
            st["fl"] = None
            return None
        if base == "mov":
            need(2)
            w = self.size(line, suf, ops)
            self.wr(st, ops[1], self.rd(st, ops[0], w, line, imm64=ops[1][0] == "reg"), line)
            return None
        if base in ("neg", "not", "inc", "dec"):
            need(1)
            w = self.size(line, suf, ops)
            v = self.rd(st, ops[0], w, line)
            v = op(base, w, v) if base in ("neg", "not") else op("add", w, v, c(w, 1 if base == "inc" else -1))
            self.wr(st, ops[0], v, line)
            if base != "not":
                st["fl"] = ("res", v, c(w, 0))
            return None
        if base in ("div", "idiv") or (base in ("mul", "imul") and n == 1):
            need(1)
            w = self.size(line, suf, ops)
            if ops[0][0] == "imm":
                raise Bad("encoding", "'%s': immediate operand" % line)
            if base in ("mul", "imul") or w < 4:
                raise Unknown(line)
            a, d, b = lo(w, regs["rax"]), lo(w, regs["rdx"]), self.rd(st, ops[0], w, line)
            if base == "div":
                if d != c(w, 0):
                    self.prob("value", "'%s': the high half of the dividend is %s" % (line, show(d)))
                    a = ("pair", w, d, a)
                qv, rv = ("udiv", w, a, b), ("urem", w, a, b)
            else:
                if d != op("sar", w, a, 8 * w - 1):
                    self.prob("value", "'%s': the high half of the dividend is %s, not the sign of %s" % (line, show(d), show(a)))
                    a = ("pair", w, d, a)
                qv, rv = ("sdiv", w, a, b), ("srem", w, a, b)
            regs["rax"], regs["rdx"] = ins(regs["rax"], qv), ins(regs["rdx"], rv)
            st["fl"] = None
            return None
        if base == "imul" and n == 3:
            w = self.size(line, suf, ops[1:])
            v = op("mul", w, self.rd(st, ops[1], w, line), self.rd(st, ops[0], w, line))
            self.wr(st, ops[2], v, line)
            st["fl"] = None
            return None
        need(2)
        w = self.size(line, suf, ops)
        if ops[1][0] == "imm":
            raise Bad("encoding", "'%s': the destination is a constant" % line)
        a, b = self.rd(st, ops[1], w, line), self.rd(st, ops[0], w, line)
        if base == "cmp":
            st["fl"] = ("cmp", a, b)
            return None
        if base == "test":
            st["fl"] = ("logic", op("and", w, a, b), c(w, 0))
            return None
        if base == "imul":
            if ops[1][0] != "reg" or w == 1:
                raise Bad("encoding", "'%s': operands" % line)
            self.wr(st, ops[1], op("mul", w, a, b), line)
            st["fl"] = None
            return None
        v = op(base, w, a, b)
        self.wr(st, ops[1], v, line)
        st["fl"] = ("cmp", a, b) if base == "sub" else ("res", v, c(w, 0)) if base == "add" else ("logic", v, c(w, 0))
        return None

    def call(self, st, o, line):
        regs = st["regs"]
        if o[0] == "lab":
            tgt = x(8, "&" + o[1])
        elif o[0] == "jreg":
            tgt = regs[o[1]]
        else:
            raise Unknown(line)
        k = frame_off(regs["rsp"])
        if k is None:
            raise Unknown("stack pointer at a call")
        if (k + 8) % 16 != 0:
            self.prob("align", "'%s': the stack is not 16-byte aligned (%d bytes below the return address)" % (line, -k))
        if lo(1, regs["rax"]) != c(1, 0):
            self.prob("protocol", "'%s': %%al is not 0 (number of vector registers of a variadic call)" % line)
        if k > -8 - self.frame and self.frame:
            self.prob("protocol", "'%s': the callee's frame overlaps the local variables" % line)
        st["ev"].append(("call", tgt, tuple(regs[r] for r in ARGS), {b - k: v for b, v in st["stk"].items() if b >= k}))
        n = st["calls"]
        st["calls"] += 1
        for r in CALLER:
            regs[r] = x(8, "%s after call %d" % (r, n))
        regs["rax"] = x(8, "ret%d" % n)
        for b in list(st["stk"]):
            if b < k:
                del st["stk"][b]
        st["fl"] = None
        return None


def compare(ref, got, alg=None):
    """-> list of (kind, detail)"""
    out = []
    for d in sorted(set(ref) | set(got), key=repr):
        if d not in ref or d not in got:
            extra = "intermediate code" if d in ref else "assembly"
            out.append(("control", "only the %s decides %s" % (extra, " and ".join(
                "%s%s" % ("" if p else "!", show_cond(b)) for b, p in d) or "nothing")))
            continue
        h1, e1, r1 = ref[d]
        h2, e2, r2 = got[d]
        if h1 != h2:
            out.append(("control", "the intermediate code ends with %s, the assembly with %s" % (h1, h2)))
            continue
        a, b = canon(e1), canon(e2)
        for i in range(max(len(a), len(b))):
            p = a[i] if i < len(a) else None
            q = b[i] if i < len(b) else None
            if p is None or q is None or p[0] != q[0]:
                out.append(("value", "effect %d should be %s, the assembly does %s" % (i, show_ev(p), show_ev(q))))
                break
            if p[0] == "call":
                bad = None
                if p[1] != q[1]:
                    bad = "the call goes to %s, not %s" % (show(q[1]), show(p[1]))
                for j, v in enumerate(p[2]):
                    g = q[2][j] if j < 6 else q[3].get(8 * (j - 6))
                    if g is None or g[1] < v[1] or lo(v[1], g) != v:
                        bad = "argument %d is %s, not %s" % (j, show(g) if g else "missing", show(v))
                        break
                if bad:
                    out.append(("value", bad))
                    break
            elif p != q:
                out.append(("value", "effect %d should be %s, the assembly does %s" % (i, show_ev(p), show_ev(q))))
                break
        else:
            if r1 is not None and h1 == ("ret",) and lo(r1[1], r2) != r1:
                out.append(("value", "the returned value is %s, not %s" % (show(r2), show(r1))))
    return out


def show_ev(e):
    if e is None:
        return "nothing"
    if e[0] == "store":
        return "store%d [%s] = %s" % (8 * e[2], show(e[1]), show(e[3]))
    if e[0] == "bytes":
        return "bytes %s" % (", ".join("[SP%+d]=%d" % x for x in e[1][:20]))
    return "call %s" % show(e[1])

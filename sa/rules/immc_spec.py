"""Reference lowering: what code each construct has to produce, written from the C semantics.

Trees are tuples
  ("leaf", name, dtype)               an operand whose own code is opaque
  ("lit", name, dtype[, value])       an integer constant
  ("cast", dtype, tree)
  ("id", name, dtype)                 a variable
  ("node", kind, dtype, [children], extra)
The reference produces lines in the notation of immc_common.Canon; registers and labels are fresh objects,
named by first use."""

SUF = {"char": "b", "int": "l", "uint": "l", "enum": "l"}


def suf(d):
    if isinstance(d, str):
        return SUF.get(d, "" if d == "void" else "q")
    return {"ptr": "q", "enum": "l"}.get(d[0], "")


def uns(d):
    return d in ("uint", "ulong", "ullong")


def sg(d):
    return "u" if uns(d) else "s"


SIZE = {"char": 1, "int": 4, "uint": 4, "enum": 4, "long": 8, "ulong": 8, "llong": 8, "ullong": 8, "void": 0}


def size(d):
    if isinstance(d, str):
        return SIZE[d]
    if d[0] == "ptr":
        return 8
    if d[0] == "arr":
        return size(d[1]) * d[2]
    if d[0] == "struct":
        return d[2]
    if d[0] == "enum":
        return 4
    return 0


LITTY = {}   # type of each symbolic constant


def lit_value(name, chain, width):
    """the low `width` bits of constant `name` taken through the conversions `chain` [(bits, signed)], innermost first;
    conversions that cannot change those bits are left out"""
    d = LITTY.get(name, "int")
    cur = (8 * size(d), not uns(d))
    out = []
    for n, sg in chain:
        if (cur[1] == sg and n >= cur[0]) or (not cur[1] and sg and n > cur[0]):
            continue
        while out and out[-1][0] >= n:
            out.pop()
        out.append((n, sg))
        cur = (n, sg)
    while out and out[-1][0] >= width:
        out.pop()
    t = "(val %s)" % name
    for n, sg in out:
        t = "(%s%d %s)" % ("su"[not sg], n, t)
    return t


def bits(d):
    return 8 * size(d)


class Reg:
    def __init__(self, d):
        self.d = d

    def show(self, sp):
        return "%s:%s%s" % (sp.rname(self), sg(self.d), suf(self.d))


class V(Reg):
    """register holding the value of an opaque operand"""

    def __init__(self, name, d):
        self.name, self.d = name, d

    def show(self, sp):
        return "v(%s):%s%s" % (self.name, sg(self.d), suf(self.d))


class Ptr:
    def __init__(self, reg):
        self.reg = reg

    def show(self, sp):
        r = self.reg
        return "*(%s)" % ("v(%s)" % r.name if isinstance(r, V) else sp.rname(r))


class Lit:
    def __init__(self, v, d):
        self.v, self.d = v, d

    def show(self, sp):
        return "$%s:%s" % (self.v, suf(self.d))


class Raw:
    def __init__(self, t):
        self.t = t

    def show(self, sp):
        return self.t


class Lab:
    def __init__(self, name=None):
        self.name = name

    def show(self, sp):
        return self.name or sp.lname(self)


class Spec:
    def __init__(self, symbols):
        self.code = []
        self.symbols = symbols
        self.regs, self.labs = {}, {}
        self.result = None

    def rname(self, r):
        return self.regs.setdefault(id(r), "r%d" % (len(self.regs) + 1))

    def lname(self, l):
        return self.labs.setdefault(id(l), "L%d" % (len(self.labs) + 1))

    def emit(self, op, *opnds):
        self.code.append((op, opnds))

    def label(self, l):
        self.code.append(("label", l))

    def child(self, name, **ctx):
        self.code.append(("child", name, ctx))

    def lines(self):
        out = []
        for c in self.code:
            if c[0] == "label":
                out.append(c[1].show(self) + ":")
            elif c[0] == "child":
                out.append("<%s%s>" % (c[1], "".join(" %s=%s" % (k, v.show(self)) for k, v in c[2].items())))
            else:
                ops = ["-" if o is None else ("@" + o.show(self) if isinstance(o, Lab) else o.show(self)) for o in c[1]]
                out.append((c[0] + " " + ", ".join(ops)).strip())
        return out

    # ---- operands
    def value(self, t):
        """operand that may be an immediate"""
        if t[0] == "lit":
            return self.literal(t, [])
        if t[0] != "cast":
            return self.operand(t)
        u, chain = t, []
        while u[0] == "cast":
            chain.append(u[1])
            u = u[2]
        if u[0] == "lit":
            return self.literal(u, list(reversed(chain)))
        r = self.value(t[2])
        n = Reg(t[1])
        self.emit("load", n, r)
        return n

    def literal(self, t, chain):
        d = chain[-1] if chain else t[2]
        if len(t) > 3:
            return Lit(t[3], d)
        return Lit(lit_value(t[1], [(bits(c), not uns(c)) for c in chain], bits(d)), d)

    def operand(self, t):
        if t[0] == "leaf":
            self.child(t[1])
            return V(t[1], t[2])
        if t[0] == "id":
            self.child(t[1])
            return V(t[1], t[2])
        if t[0] == "node":
            self.child(t[4])
            return V(t[4], t[2])
        if t[0] == "cast":
            self.child(t[3])
            return V(t[3], t[1])
        if t[0] == "lit":
            self.child(t[1])
            return V(t[1], t[2])
        raise ValueError(t)

    def reg(self, t):
        v = self.value(t)
        if isinstance(v, Lit):
            r = Reg(v.d)
            self.emit("load", r, v)
            return r
        return v

    def place(self, t):
        """the storage an address-valued tree designates"""
        if t[0] == "node" and t[1] == "SRT_ADDR_EXPR" and t[3][0][0] == "id":
            return self.var(t[3][0][1])
        r = self.operand(t)
        return Ptr(r)

    def var(self, name):
        k = self.symbols[name]
        return Raw("@" + name if k == "label" else "M[%s]" % k)

    REL = {"EQUAL": ("jeq", "jneq"), "NEQUAL": ("jneq", "jeq"), "LESS": ("jlt", "jgeq"), "GREATER": ("jgt", "jleq"),
           "LESSEQ": ("jleq", "jgt"), "GREATEREQ": ("jgeq", "jlt")}

    def jump(self, t, label, when):
        if t[0] == "node" and t[1][4:-5] in self.REL:
            a = self.reg(t[3][0])
            b = self.value(t[3][1])
            self.emit(self.REL[t[1][4:-5]][0 if when else 1], label, a, b)
            return
        a = self.reg(t)
        self.emit("jneq" if when else "jeq", label, a, Lit(0, a.d))

    # ---- expressions
    BIN = {"OR": "or", "XOR": "xor", "AND": "and", "EQUAL": "seteq", "NEQUAL": "setneq", "LESS": "setlt",
           "GREATER": "setgt", "LESSEQ": "setleq", "GREATEREQ": "setgeq", "LSHIFT": "sal", "ADD": "add",
           "SUB": "sub", "MUL": "mul", "DIV": "div", "MOD": "mod"}

    def expr(self, t):
        kind, d, ch = t[1][4:-5], t[2], t[3]
        x = t[5] if len(t) > 5 else {}
        if kind in self.BIN or kind == "RSHIFT":
            a = self.reg(ch[0])
            b = self.value(ch[1])
            r = Reg(d)
            # right shift of an unsigned value brings in zeros: the operation is chosen by the register's signedness
            self.emit(self.BIN.get(kind, "sar"), r, a, b)
        elif kind in ("PADD", "PSUB"):
            a = self.reg(ch[0])
            b = self.reg(ch[1])
            r = Reg(d)
            self.emit("mul", b, b, Lit(size(dt(ch[0])[1]), b.d))
            self.emit("add" if kind == "PADD" else "sub", r, a, b)
        elif kind == "PDIFF":
            a = self.reg(ch[0])
            b = self.reg(ch[1])
            r = Reg(d)
            self.emit("sub", r, a, b)
            self.emit("div", r, r, Lit(size(dt(ch[0])[1]), d))
        elif kind == "ASSIGN":
            r = self.reg(ch[1])
            p = self.place(ch[0])
            self.emit("store", p, r)
        elif kind == "COND":
            f, e = Lab(), Lab()
            self.jump(ch[0], f, False)
            r = Reg(d)
            self.emit("load", r, self.reg(ch[1]))
            self.emit("jmp", e)
            self.label(f)
            self.emit("load", r, self.reg(ch[2]))
            self.label(e)
        elif kind in ("LOR", "LAND"):
            w = kind == "LOR"
            t1, e = Lab(), Lab()
            self.jump(ch[0], t1, w)
            self.jump(ch[1], t1, w)
            r = Reg(d)
            self.emit("load", r, Lit(0 if w else 1, d))
            self.emit("jmp", e)
            self.label(t1)
            self.emit("load", r, Lit(1 if w else 0, d))
            self.label(e)
        elif kind in ("PREINC", "PREDEC", "POSTINC", "POSTDEC"):
            p = self.place(ch[0])
            r = Reg(d)
            self.emit("load", r, p)
            by = Lit(1 if isinstance(d, str) else (size(d[1]) or 1), d)
            old = Reg(d)
            if kind.startswith("POST"):
                self.emit("load", old, r)
            self.emit("add" if kind.endswith("INC") else "sub", r, r, by)
            self.emit("store", p, r)
            r = old if kind.startswith("POST") else r
        elif kind == "ADDR":
            c = ch[0]
            if c[0] == "id":
                r = Reg(d)
                self.emit("addr", r, self.var(c[1]))
            elif c[1] == "SRT_STR_EXPR":
                r = Reg(d)
                self.emit("addr", r, Raw("@" + c[5]["label"]))
            elif c[1] == "SRT_INDIR_EXPR":
                r = self.operand(c[3][0])
            elif c[1] == "SRT_TOMEMBER_EXPR":
                r = self.member_addr(c, d)
        elif kind == "TOMEMBER":
            a = self.member_addr(t, ("ptr", d))
            r = Reg(d)
            self.emit("load", r, Ptr(a))
        elif kind == "INDIR":
            p = self.place(ch[0])
            r = Reg(d)
            self.emit("load", r, p)
        elif kind == "POS":
            r = self.reg(ch[0])
        elif kind in ("NEG", "NOT"):
            v = self.value(ch[0])
            r = Reg(d)
            self.emit(kind.lower(), r, v)
        elif kind == "LNOT":
            v = self.reg(ch[0])
            r = Reg(d)
            self.emit("seteq", r, v, Lit(0, v.d))
        elif kind == "CALL":
            args = x["args"]
            n = Raw("$%d:" % len(args))
            self.emit("prep", None, n)
            for i in range(len(args) - 1, -1, -1):
                v = self.value(args[i])
                self.emit("starg", Raw("arg[%d]:%s" % (i, suf(v.d))), v)
            f = self.place(ch[0])
            r = Reg(d) if d != "void" else None
            self.emit("call", r, f, n)
            self.emit("clean", None, n)
        elif kind == "IDENT":
            r = Reg(d)
            self.emit("load", r, self.var(x["name"]))
        elif kind == "STR":
            r = Reg(d)
            self.emit("load", r, Raw("@" + x["label"]))
        elif kind == "ILITERAL":
            r = Reg(d)
            self.emit("load", r, Lit(lit_value(t[4], [(bits(d), not uns(d))], bits(d)), d))
        elif kind == "CAST":
            if d == "void":
                self.operand(ch[0])
                r = None
            else:
                a = self.reg(ch[0])
                r = Reg(d)
                self.emit("load", r, a)
        else:
            raise ValueError(kind)
        self.result = r

    def member_addr(self, t, d):
        b = self.reg(t[3][0])
        r = Reg(d)
        self.emit("add", r, b, Raw("$%d:q" % t[5]["offset"]))
        return r


def dt(t):
    if t[0] == "cast":
        return t[1]
    return t[2]

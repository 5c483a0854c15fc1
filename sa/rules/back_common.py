"""The back end: intermediate code -> register allocation -> x86-64 -> assembly text.

A small intermediate program is built with the compiler's own constructors; the allocator, the x86-64 generator and the
text printer are interpreted abstractly on it; the resulting assembly text is read back and given the meaning the
architecture gives it (x86sem), and compared with the meaning the intermediate instruction set documents (immsem)."""
from lab import *
import interp, x86sem, immsem, models

WIDTH = {1: "IMMC_SUFFIX_BYTE", 2: "IMMC_SUFFIX_WORD", 4: "IMMC_SUFFIX_LONG", 8: "IMMC_SUFFIX_QUAD",
         0: "IMMC_SUFFIX_NONE"}


def reg(w, u, i):
    return ("reg", w, u, i)


def ptr(i):
    return ("ptr", i)


def mem(o):
    return ("mem", o)


def lab_(n):
    return ("lab", n)


def num(w, v, ty=None):
    if ty is None:
        ty = "INTEGER_INT" if -2**31 <= v < 2**31 else ("INTEGER_LONG" if v < 2**63 else "INTEGER_UNSIGNED_LONG")
    return ("int", w, ty, v)


def arg(w, i):
    return ("arg", w, i)


def I(op, dst=None, fst=None, snd=None):
    return ("inst", op, dst, fst, snd)


def L(n):
    return ("label", n)


def F(n, vis="GLOBAL"):
    return ("flabel", n, vis)


class Back:
    def __init__(self, check_mem=False):
        need("regalloc_allocate_regs")
        need("x64gen_generate_x64code")
        need("x64_tostring")
        self.E = Engine(prog(), max_states=400)
        self.E.check_mem = check_mem
        models.real_sets(self.E)
        self.s = State()
        self.lab = Lab(self.E, self.s)

    # ---- building
    def ope(self, o):
        L = self.lab
        if o is None:
            return 0
        k = o[0]
        if k == "reg":
            return L.call("new_unsigned_reg_immcope" if o[2] else "new_signed_reg_immcope", ev(WIDTH[o[1]]), o[3])
        if k == "ptr":
            return L.call("new_ptr_immcope", o[1])
        if k == "mem":
            return L.call("new_mem_immcope", o[1])
        if k == "lab":
            return L.call("new_label_immcope", L.text(o[1]))
        if k == "arg":
            return L.call("new_signed_arg_immcope", ev(WIDTH[o[1]]), o[2])
        if k == "str":
            sl = L.call("new_sliteral", self.chars(o[1]), len(o[1]))
            return L.call("new_str_immcope", sl)
        if k == "int":
            un = "UNSIGNED" in o[2]
            return L.call("new_unsigned_int_immcope" if un else "new_signed_int_immcope", ev(WIDTH[o[1]]), ev(o[2]), o[3])
        raise ValueError(o)

    def chars(self, bs):
        """a string literal's bytes, as (signed) char values"""
        E, s = self.E, self.lab.s
        oid = E.new_heap(s, "buf", None, (), "literal")
        o = s.objs[oid]
        o.kind = "heap"
        o.x = None
        for i, b in enumerate(bs):
            o.f[(i,)] = b if b < 128 else b - 256
        return ("p", oid, ())

    def immc(self, x):
        L = self.lab
        if x[0] == "inst":
            return L.call("new_inst_immc", ev("IMMC_INST_" + x[1]), *[self.ope(o) for o in x[2:5]])
        if x[0] == "label":
            return L.call("new_label_immc", ev("IMMC_LABEL_NORMAL"), ev("IMMC_VIS_NONE"), L.text(x[1]))
        if x[0] in ("flabel", "vlabel"):
            return L.call("new_label_immc", ev("IMMC_LABEL_FUNCTION" if x[0] == "flabel" else "IMMC_LABEL_VARIABLE"),
                          ev("IMMC_VIS_" + x[2]), L.text(x[1]))
        if x[0] == "data":
            if x[1] == "STR":
                sl = L.call("new_sliteral", self.chars(x[2]), len(x[2]))
                return L.call("new_str_data_immc", ev("IMMC_DATA_STR"), sl)
            un = "UNSIGNED" in x[3]
            il = L.call("new_unsigned_iliteral" if un else "new_signed_iliteral", ev(x[3]), x[2])
            return L.call("new_int_data_immc", ev("IMMC_DATA_" + x[1]), il)
        raise ValueError(x)

    def run(self, prog_):
        """-> list of outcomes ("text", str, state) | ("stop", why, state)"""
        L = self.lab
        immcs = L.vec([self.immc(x) for x in prog_], "t_immc")
        nregs = self.nregs()
        ra = L.call("new_regalloc", immcs, nregs)
        rs = self.E.call(("fn", "regalloc_allocate_regs", None), [ra], L.s, FAKE)
        out = []
        for v, s in rs:
            a = self.field(s, v, "immcs")
            l = self.field(s, v, "liveseqs")
            for g, s2 in self.E.call(("fn", "new_x64gen", None), [a, l], s, FAKE):
                for codes, s3 in self.E.call(("fn", "x64gen_generate_x64code", None), [g], s2, FAKE):
                    out.append(("codes", codes, s3))
        return out

    def field(self, s, v, f):
        (loc, s), = self.E.deref(s, v, FAKE)
        return self.E.read(s, (loc[0], loc[1] + (f,)), None, FAKE)

    def nregs(self):
        g = global_oid("NUM_CALLER_SAVED_REGS")
        if g is None:
            raise Broken("NUM_CALLER_SAVED_REGS not found")
        o = self.E.ensure(self.lab.s, g)
        return o.f.get((), o.f.get((0,)))

    def text(self, codes, s):
        """assembly text of a vector of x64 codes (single-valued)"""
        o = s.objs[codes[1]]
        out = []
        for e in o.x:
            if e[0] != "one":
                raise Undecided("unknown x64 code sequence")
            rs = self.E.call(("fn", "x64_tostring", None), [e[1]], s, FAKE)
            if len(rs) != 1:
                raise Undecided("text depends on %d cases" % len(rs))
            v, s = rs[0]
            t = interp.pieces_text(interp.text_of(self.E, s, v))
            if t is None:
                raise Undecided("text is not a constant: %s" % (interp.text_of(self.E, s, v),))
            out.append(t)
        return "".join(out), s


def compile_(prog_, check_mem=False):
    """-> (text or None, findings, dead ends)"""
    B = Back(check_mem)
    outs = B.run(prog_)
    E = B.E
    if len(outs) > 1:
        raise Undecided("%d outcomes" % len(outs))
    if not outs:
        return None, E
    _, codes, s = outs[0]
    t, s = B.text(codes, s)
    B.lab.s = s
    return t, E


def part(prog_, name):
    """the intermediate code of one function"""
    out = None
    for q in prog_:
        if q[0] in ("flabel", "vlabel"):
            if out is not None:
                break
            if q[1] == name:
                out = []
        if out is not None:
            out.append(q)
    return out


def frame_of(prog_):
    for q in prog_:
        if q[0] == "inst" and q[1] == "ENTER":
            return (q[3][3] + 15) // 16 * 16
    return 0


def check(prog_, name="f"):
    """-> list of (kind, detail); kinds: value control encoding protocol align stop memory"""
    whole, prog_ = prog_, part(prog_, name)
    ref = immsem.Ref(prog_).run()
    text, E = compile_(whole)
    out = []
    if text is None:
        f = E.findings[0] if E.findings else None
        out.append(("stop", "no assembly is produced: %s" % (f,)))
        out += [("memory", "%s %s:%s %s" % tuple(f[:4])) for f in E.findings]
        return out, E, text
    for f in E.findings:
        out.append(("memory", "%s %s:%s %s" % tuple(f[:4])))
    try:
        M = x86sem.Mach(text, name, frame_of(prog_))
        got = M.run()
    except x86sem.Bad as e:
        out.append((e.kind, str(e)))
        return out, E, text
    except x86sem.Unknown as e:
        raise Undecided("assembly: %s" % e)
    out += M.problems
    diff = x86sem.compare(ref, got)
    if diff and any(q[0] == "inst" and q[1] == "STR" for q in prog_):
        diff = diff and x86sem.compare(immsem.Ref(prog_, pad=True).run(), got)
    out += diff
    return out, E, text

"""P19: every intermediate instruction is translated to x86-64 code with the same effect."""
from rules.back_common import *
from report import pmap

META = {"level": "other", "explanation":
        "One intermediate instruction at a time, with its operands and other live values placed in every register, is built with the compiler's own "
        "constructors; the allocator, the x86-64 generator and the printer are interpreted abstractly on it; the resulting text is parsed, checked "
        "for encodability (existing names, operand sizes, immediates, byte registers) and given the architecture's meaning over symbolic register and "
        "memory contents; the list of memory effects, branches and results must be term-equal to the meaning of the intermediate code.",
        "assumptions": ["the intermediate instruction set means what the comments in src/immc/inst.h say, with C's meaning of signedness"]}

TY = {1: ["INTEGER_INT"], 4: ["INTEGER_INT", "INTEGER_UNSIGNED_INT"], 8: ["INTEGER_LONG", "INTEGER_UNSIGNED_LONG"]}
VALS = {(1, 0): [0, 1, -1, 127, -128], (4, 0): [0, 1, -1, 5, 2**31 - 1, -2**31], (4, 1): [0, 1, 2**31, 2**32 - 1],
        (8, 0): [0, -1, 7, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**63 - 1, -2**63], (8, 1): [0, 3, 2**31, 2**32 - 1, 2**64 - 1, 2**63]}


def ints(w, u):
    ty = {(1, 0): "INTEGER_INT", (4, 0): "INTEGER_INT", (4, 1): "INTEGER_UNSIGNED_INT", (8, 0): "INTEGER_LONG", (8, 1): "INTEGER_UNSIGNED_LONG"}
    return [num(w, v, ty[(w, u)]) for v in VALS[(w, u)]]


FRAME = 320


class Gen:
    """a function with keepers around one instruction"""

    def __init__(self, pre, hole, post):
        self.code = [F("f"), I("ENTER", None, num(0, FRAME))]
        self.n = 0
        self.off = 8
        self.keep = []
        self.hole = None
        if hole:
            self.hole = self.load(8, 0)
        for _ in range(pre):
            self.keep.append(self.load(8, 0))
        self.post = post

    def new(self, w, u):
        r = reg(w, u, self.n)
        self.n += 1
        return r

    def load(self, w, u):
        r = self.new(w, u)
        self.code.append(I("LOAD", r, mem(self.off)))
        self.off += 8
        return r

    def settle(self):
        for _ in range(self.post):
            self.keep.append(self.load(8, 0))
        if self.hole:
            self.code.append(I("STORE", mem(self.off), self.hole))
            self.off += 8

    def finish(self, *results):
        for r in list(results) + self.keep:
            self.code.append(I("STORE", mem(self.off), r))
            self.off += 8
        self.code.append(L(".L0"))
        self.code.append(I("LEAVE", None, num(0, FRAME)))
        return self.code


def places(tier, need_, full=False):
    """(keepers before, hole, keepers after): the operands occupy the registers in between; at most eight live"""
    out = []
    for pre in range(0, 9 - need_):
        for hole in (0, 1):
            for post in range(0, 9 - need_ - pre - hole):
                out.append((pre, hole, post))
    if tier == "thorough":
        return out
    if full:
        return [p for p in out if p[2] in (0, 1) or sum(p) + need_ == 8]
    top = 8 - need_
    return [p for p in [(0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1), (1, 1, 1), (top, 0, 0), (top - 1, 1, 0), (0, 0, top)] if p in out]


def binary(opn, w, u, snd, place, dw=None, w2=None, u2=None):
    g = Gen(*place)
    a = g.load(w, u)
    b = g.load(w2 or w, u if u2 is None else u2) if snd is None else snd
    g.settle()
    d = g.new(dw or w, 0 if dw else u)
    g.code.append(I(opn, d, a, b))
    return g.finish(d)


def jump(opn, w, u, snd, place):
    g = Gen(*place)
    a = g.load(w, u)
    b = g.load(w, u) if snd is None else snd
    g.settle()
    g.code.append(I(opn, lab_(".L1"), a, b))
    g.code.append(I("STORE", mem(g.off), num(4, 77)))
    g.off += 8
    g.code.append(L(".L1"))
    return g.finish()


def scenarios(tier):
    S = []
    th = tier == "thorough"

    def add(key, p):
        S.append((key, p))
    for opn in ("ADD", "SUB", "AND", "OR", "XOR"):
        for w in (1, 4, 8):
            for u in ((0, 1) if w > 1 else (0,)):
                for pl in places(tier, 2) if (opn in ("ADD", "AND") or th) else [(0, 0, 0), (0, 1, 0), (1, 0, 1)]:
                    add("%s %d%s reg,reg at %s" % (opn, 8 * w, "su"[u], pl), binary(opn, w, u, None, pl))
                for v in ints(w, u):
                    for pl in ([(0, 0, 0), (0, 1, 0)] if opn == "ADD" else [(0, 1, 0)]):
                        add("%s %d%s reg,%d at %s" % (opn, 8 * w, "su"[u], v[3], pl), binary(opn, w, u, v, pl))
    for u2 in (0, 1):
        for opn in ("ADD", "SUB"):
            for pl in places(tier, 2):
                add("%s 64 reg, reg 32%s at %s" % (opn, "su"[u2], pl), binary(opn, 8, 0, None, pl, w2=4, u2=u2))
    for opn in ("MUL", "DIV", "MOD"):
        for w in (4, 8):
            for u in (0, 1):
                for pl in places(tier, 2, w == 4 and u == 0 or th):
                    add("%s %d%s reg,reg at %s" % (opn, 8 * w, "su"[u], pl), binary(opn, w, u, None, pl))
                for v in ints(w, u):
                    if opn != "MUL" and v[3] == 0:
                        continue
                    for pl in (places(tier, 1, True) if v[3] in (5, 1, 7, 3) and w == 4 else [(0, 0, 0), (0, 1, 0), (1, 0, 0), (6, 0, 0), (6, 1, 0), (0, 0, 7)]):
                        if opn == "MUL" and sum(pl) > 1 and not th:
                            continue
                        add("%s %d%s reg,%d at %s" % (opn, 8 * w, "su"[u], v[3], pl), binary(opn, w, u, v, pl))
    for opn in ("SAL", "SAR"):
        for w in (4, 8):
            for u in (0, 1):
                for n in (0, 1, 8 * w - 1, 3):
                    for cw in (4, 8):
                        for pl in ([(0, 0, 0), (0, 1, 0), (1, 0, 1)] if n == 3 else [(0, 1, 0)]):
                            add("%s %d%s reg,%d/%d at %s" % (opn, 8 * w, "su"[u], n, 8 * cw, pl), binary(opn, w, u, num(cw, n), pl))
    for opn in ("SAL", "SAR"):
        for w, u in ((4, 0), (4, 1), (8, 0), (8, 1)):
            for cw in (4, 8):
                for pl in places(tier, 2, th or cw == 4 and u == 0):
                    add("%s %d%s reg,reg %d at %s" % (opn, 8 * w, "su"[u], 8 * cw, pl), binary(opn, w, u, None, pl, w2=cw, u2=0))
    for rel in ("EQ", "NEQ", "LT", "GT", "LEQ", "GEQ"):
        for w in (1, 4, 8):
            for u in ((0, 1) if w > 1 else (0,)):
                pls = places(tier, 2) if rel in ("LT", "EQ") or th else [(0, 0, 0), (0, 1, 0), (1, 0, 1)]
                for pl in pls:
                    add("SET%s %d%s reg,reg at %s" % (rel, 8 * w, "su"[u], pl), binary("SET" + rel, w, u, None, pl, dw=4))
                    add("J%s %d%s reg,reg at %s" % (rel, 8 * w, "su"[u], pl), jump("J" + rel, w, u, None, pl))
                for v in ints(w, u):
                    add("SET%s %d%s reg,%d" % (rel, 8 * w, "su"[u], v[3]), binary("SET" + rel, w, u, v, (0, 1, 0), dw=4))
                    add("J%s %d%s reg,%d" % (rel, 8 * w, "su"[u], v[3]), jump("J" + rel, w, u, v, (0, 1, 0)))
                    if v[3] == 0:
                        add("J%s %d%s reg,int 0" % (rel, 8 * w, "su"[u]), jump("J" + rel, w, u, num(w, 0), (0, 0, 0)))
    for opn in ("NEG", "NOT"):
        for w in (4, 8):
            for u in (0, 1):
                for pl in places(tier, 1):
                    g = Gen(*pl)
                    a = g.load(w, u)
                    g.settle()
                    d = g.new(w, u)
                    g.code.append(I(opn, d, a))
                    add("%s %d%s reg at %s" % (opn, 8 * w, "su"[u], pl), g.finish(d))
                for v in ints(w, u):
                    g = Gen(0, 0, 0)
                    d = g.new(w, u)
                    g.code.append(I(opn, d, v))
                    add("%s %d%s %d" % (opn, 8 * w, "su"[u], v[3]), g.finish(d))
    # data movement
    for w in (1, 4, 8):
        for u in ((0, 1) if w > 1 else (0,)):
            for v in ints(w, u):
                g = Gen(1, 0, 0)
                d = g.new(w, u)
                g.code.append(I("LOAD", d, v))
                add("LOAD %d%s %d" % (8 * w, "su"[u], v[3]), g.finish(d))
                for where in ("mem", "ptr", "lab"):
                    g = Gen(0, 0, 0)
                    t = {"mem": mem(32), "lab": lab_("gv")}.get(where)
                    if where == "ptr":
                        t = ptr(g.load(8, 1)[3])
                    g.code.append(I("STORE", t, v))
                    add("STORE %s %d%s %d" % (where, 8 * w, "su"[u], v[3]), g.finish())
            for w2 in (1, 4, 8):
                for u2 in ((0, 1) if w2 > 1 else (0,)):
                    for pl in places(tier, 1) if (w, w2) in ((4, 8), (1, 4), (1, 8)) or th else [(0, 0, 0), (0, 1, 0), (1, 1, 1)]:
                        g = Gen(*pl)
                        a = g.load(w, u)
                        g.settle()
                        d = g.new(w2, u2)
                        g.code.append(I("LOAD", d, a))
                        add("LOAD %d%s <- reg %d%s at %s" % (8 * w2, "su"[u2], 8 * w, "su"[u], pl), g.finish(d))
            for where in ("mem", "ptr", "lab"):
                for pl in [(0, 0, 0), (3, 0, 0), (0, 0, 6)]:
                    g = Gen(*pl)
                    t = {"mem": mem(32), "lab": lab_("gv")}.get(where)
                    if where == "ptr":
                        t = ptr(g.load(8, 1)[3])
                    g.settle()
                    d = g.new(w, u)
                    g.code.append(I("LOAD", d, t))
                    add("LOAD %d%s <- %s at %s" % (8 * w, "su"[u], where, pl), g.finish(d))
                    g = Gen(*pl)
                    t = {"mem": mem(32), "lab": lab_("gv")}.get(where)
                    if where == "ptr":
                        t = ptr(g.load(8, 1)[3])
                    a = g.load(w, u)
                    g.code.append(I("STORE", t, a))
                    g.settle()
                    add("STORE %s <- reg %d%s at %s" % (where, 8 * w, "su"[u], pl), g.finish())
            g = Gen(0, 0, 0)
            a = g.load(w, u)
            g.code.append(I("STRET", None, a))
            g.code.append(I("JMP", lab_(".L0")))
            add("STRET reg %d%s" % (8 * w, "su"[u]), g.finish())
            for v in ints(w, u):
                g = Gen(0, 0, 0)
                g.code.append(I("STRET", None, v))
                g.code.append(I("JMP", lab_(".L0")))
                add("STRET %d%s %d" % (8 * w, "su"[u], v[3]), g.finish())
    kinds = [(1, 0), (4, 0), (4, 1), (8, 0), (8, 1)]
    for k1 in kinds:
        for k2 in kinds:
            for k3 in kinds:
                for k4 in kinds if th else [(8, 0)]:
                    for pl in [(0, 0, 0), (1, 1, 0)] if th else [(0, 0, 0)]:
                        # each conversion happens in the register of the value it converts
                        g = Gen(*pl)
                        r = g.load(*k1)
                        g.settle()
                        for k in (k2, k3, k4):
                            d = g.new(*k)
                            g.code.append(I("LOAD", d, r))
                            r = d
                        add("LOAD chain %s at %s" % (" -> ".join("%d%s" % (8 * w, "su"[u]) for w, u in (k1, k2, k3, k4)), pl), g.finish(r))
    for t in (mem(32), lab_("gv")):
        for pl in [(0, 0, 0), (5, 0, 0), (0, 1, 0)]:
            g = Gen(*pl)
            g.settle()
            d = g.new(8, 1)
            g.code.append(I("ADDR", d, t))
            add("ADDR %s at %s" % (t[0], pl), g.finish(d))
    for n in list(range(1, 19)) + ([31, 32, 33] if th else []):
        for fill in ((b"",) if n == 1 else (b"abcdefghijklmnopqrstuvwxyz0123456789", bytes([0x80 + 7 * i & 255 | 0x80 for i in range(40)]))):
            for mis in (0, 1, 2, 3, 4):
                pl = (0, 0, 1)
                g = Gen(*pl)
                g.settle()
                bs = fill[:n - 1] + b"\0"
                g.off += 64 + mis
                g.code.append(I("STR", mem(g.off), ("str", bs)))
                g.off += 16 - mis
                add("STR %d bytes%s %d past a multiple of 8" % (n, " above 127" if n > 1 and fill[0] > 127 else "", mis), g.finish())
    return S


def one(R, key, p, kinds=("value", "control", "encoding", "stop", "memory"), rule=None, name="f"):
    rule = rule or key.split()[0]
    try:
        out, E, text = check(p, name)
    except immsem.Bad as e:
        R.unk(rule, key, "scenario: %s" % e)
        return
    R.saw(E.visited)
    bad = [o for o in out if o[0] in kinds]
    if bad:
        R.bad(rule, key, "src/x64gen", "; ".join("%s: %s" % o for o in bad[:3]) + " | " + (text or "").replace("\n", " ; ")[:600])
    else:
        R.ok(rule, key)


def run(R, tier):
    need("x64gen_generate_x64code")
    pmap(R, one, scenarios(tier))

"""P20: functions call and return by the System V x86-64 convention."""
from rules.back_common import *
from rules.p19 import one as one_, VALS, binary, places
from report import pmap

META = {"level": "other", "explanation":
        "Abstract interpretation of register allocation, x86-64 generation and text printing on intermediate functions that receive "
        "parameters, prepare arguments, call directly and through pointers, nest calls in argument lists and keep values across calls; the text "
        "is given the architecture's meaning over symbolic register contents and compared with the meaning of the intermediate code: arguments "
        "in the registers and stack slots the System V convention names, stack pointer 16-byte aligned and %al zero at every call, "
        "callee-saved registers (also those that divisions and shifts borrow), frame pointer and stack pointer restored at every return, nothing below the stack pointer or in the "
        "caller-saved registers relied upon across a call.",
        "assumptions": ["the intermediate instruction set means what the comments in src/immc/inst.h say"]}

FULL = ("value", "control", "encoding", "stop", "memory", "protocol", "align")


class C:
    def __init__(self, frame=320, name="f"):
        self.frame = frame
        self.code = [F(name), I("ENTER", None, num(0, frame))]
        self.n = 0
        self.off = 8

    def new(self, w, u=0):
        r = reg(w, u, self.n)
        self.n += 1
        return r

    def load(self, w=8, u=0):
        r = self.new(w, u)
        self.code.append(I("LOAD", r, mem(self.slot())))
        return r

    def slot(self):
        self.off += 8
        return self.off - 8

    def keep(self, r):
        self.code.append(I("STORE", mem(self.slot()), r))

    def call(self, args, target=None, ret=(4, 0)):
        """args: ("v", w) a loaded value, ("c", w, value) a constant, ("call", args, ret) another call's result, ("k", reg)"""
        c = self.code
        n = len(args)
        c.append(I("PREP", None, num(0, n)))
        for i in range(n - 1, -1, -1):
            a = args[i]
            if a[0] == "v":
                v = self.load(a[1], a[2] if len(a) > 2 else 0)
            elif a[0] == "c":
                v = num(a[1], a[2])
            elif a[0] == "k":
                v = a[1]
            elif a[0] == "tern":
                v = self.tern(a)
            else:
                v = self.call(a[1], None, a[2])
            c.append(I("STARG", arg(v[1], i), v))
        if target is None:
            t = lab_("callee%d" % n)
        elif target == "ptr":
            t = ptr(self.load(8, 1)[3])
        else:
            t = target
        d = self.new(*ret) if ret else None
        c.append(I("CALL", d, t, num(0, n)))
        c.append(I("CLEAN", None, num(0, n)))
        return d

    def tern(self, a):
        """a register set by one of two calls: v ? g() : h()"""
        k = self.n
        v = self.load(4)
        d = self.new(4)
        l0, l1 = ".T%d" % k, ".U%d" % k
        self.code.append(I("JEQ", lab_(l0), v, num(4, 0)))
        r = self.call(a[1])
        self.code.append(I("LOAD", d, r))
        self.code.append(I("JMP", lab_(l1)))
        self.code.append(L(l0))
        r = self.call(a[2])
        self.code.append(I("LOAD", d, r))
        self.code.append(L(l1))
        return d

    def finish(self):
        self.code.append(L(".L0"))
        self.code.append(I("LEAVE", None, num(0, self.frame)))
        return self.code


def scenarios(tier):
    S = []
    th = tier == "thorough"

    def add(key, p, name="f"):
        S.append((key, p, name))
    # parameters
    for n in range(0, 11):
        for w in (1, 4, 8):
            for frame in (0, 1, 8, 16, 24, 100):
                if frame != 100 and not th and w != 4:
                    continue
                c = C(max(frame, 8 * n))
                for i in range(n):
                    ww = w if i % 3 else {1: 4, 4: 8, 8: 1}[w]
                    c.code.append(I("LDARG", mem(8 * i + ww), arg(ww, i)))
                add("PARAM %d parameters of %d bits, frame %d" % (n, 8 * w, max(frame, 8 * n)), c.finish())
    # plain calls
    for n in range(0, 10):
        for w in (1, 4, 8):
            for kind in ("v", "c", "mix"):
                for ret in (None, (1, 0), (4, 0), (4, 1), (8, 0)):
                    if not th and ret not in (None, (4, 0)) and (w != 4 or n > 2):
                        continue
                    c = C()
                    args = [("v", w) if kind == "v" or kind == "mix" and i % 2 else ("c", w, VALS[(w, 0)][i % len(VALS[(w, 0)])]) for i in range(n)]
                    d = c.call(args, None, ret)
                    if d:
                        c.keep(d)
                    add("CALL %d %s args of %d bits -> %s" % (n, kind, 8 * w, ret), c.finish())
    # through a pointer, at every register, with values kept across
    for n in range(0, 9):
        for live in range(0, 6):
            for target in (None, "ptr"):
                for ret in ((4, 0), None):
                    if not th and n in (3, 4, 5, 8) and live in (2, 3):
                        continue
                    c = C()
                    ks = [c.load() for _ in range(live)]
                    d = c.call([("c", 4, 10 + i) for i in range(n)], target, ret)
                    for k in ks:
                        c.keep(k)
                    if d:
                        c.keep(d)
                    add("LIVE call of %s with %d args, %d values kept -> %s" % (target or "label", n, live, ret), c.finish())
                    if live:
                        # the first value kept dies: a hole below
                        c = C()
                        h = c.load()
                        ks = [c.load() for _ in range(live)]
                        c.keep(h)
                        d = c.call([("v", 4) for i in range(n)], target, ret)
                        for k in ks:
                            c.keep(k)
                        if d:
                            c.keep(d)
                        add("LIVE call of %s with %d args, hole and %d values kept -> %s" % (target or "label", n, live, ret), c.finish())
    for live in (6, 7):
        c = C()
        ks = [c.load() for _ in range(live)]
        d = c.call([], None)
        for k in ks:
            c.keep(k)
        c.keep(d)
        add("STOP %d values kept across a call" % live, c.finish())
    # nested calls
    for n in (1, 2, 3, 5, 6, 7, 8):
        for i in range(n):
            for m in (0, 1, 6, 7, 8):
                if not th and m not in (1, 7) and i not in (0, n - 1):
                    continue
                for ret in ((4, 0),):
                    args = [("v", 4) if j != i else ("call", [("c", 4, j) for j in range(m)], (4, 0)) for j in range(n)]
                    c = C()
                    d = c.call(args, None, ret)
                    c.keep(d)
                    add("NEST call of %d args, argument %d a call of %d args" % (n, i, m), c.finish())
    for n in (2, 3, 7, 8):
        c = C()
        k = c.load()
        c.keep(c.call([("call", [("c", 4, 1)] * (j % 8), (8, 0)) for j in range(n)], "ptr"))
        c.keep(k)
        add("NEST call of %d args, each a call" % n, c.finish())
    inner = ("call", [("call", [("c", 4, 3), ("call", [("v", 4)], (4, 0))], (4, 0)), ("c", 4, 2)], (4, 0))
    for tgt in (None, "ptr"):
        c = C()
        c.keep(c.call([inner, ("c", 4, 1)], tgt))
        add("NEST four deep %s" % tgt, c.finish())
        c = C()
        c.keep(c.call([("c", 4, 5), ("tern", [("v", 4)], [("c", 4, 1)] * 7), ("c", 4, 1)], tgt))
        add("NEST conditional calls in an argument %s" % tgt, c.finish())
    # one after another; the second must not see the first's slots
    for a, b in ((7, 0), (0, 7), (9, 2), (6, 6), (7, 8)):
        c = C()
        x = c.call([("c", 4, i) for i in range(a)])
        y = c.call([("k", x)] + [("v", 4) for i in range(b)], None, None) or x
        add("SEQ calls of %d and %d args" % (a, b + 1), c.finish())
    # calls in a row with different numbers of values kept across each
    seqs = [(1, 3), (3, 1), (2, 5), (5, 2), (0, 4), (4, 0), (1, 2, 3), (3, 2, 1), (1, 1, 1), (0, 5, 0), (2, 4, 1, 5)]
    if th:
        seqs += [(a, b, d) for a in range(6) for b in range(6) for d in (0, 2, 5)]
    for q in seqs:
        for n in (0, 2, 7):
            for how in ("fresh", "grow"):
                if how == "grow" and list(q) != sorted(q):
                    continue
                c = C(480)
                ks = []
                for live in q:
                    if how == "fresh":
                        ks = []
                    while len(ks) < live:
                        ks.append(c.load())
                    d = c.call([("c", 4, 10 + i) for i in range(n)], None, (4, 0))
                    if how == "fresh":
                        for k in ks:
                            c.keep(k)
                    c.keep(d)
                if how == "grow":
                    for k in ks:
                        c.keep(k)
                add("ROW calls of %d args keeping %s values, %s" % (n, q, how), c.finish())
                # the same with each call on one arm of a branch
                if n == 0 and how == "fresh":
                    c = C(480)
                    for j, live in enumerate(q):
                        v = c.load(4)
                        c.code.append(I("JEQ", lab_(".B%d" % j), v, num(4, 0)))
                        ks = [c.load() for _ in range(live)]
                        c.call([], "ptr" if live < 5 else None, None)
                        for k in ks:
                            c.keep(k)
                        c.code.append(L(".B%d" % j))
                    add("ROW calls on branches keeping %s values" % (q,), c.finish())
    # returning
    for live in (0, 1, 2, 5):
        for early in (0, 1):
            c = C()
            ks = [c.load() for _ in range(live)]
            d = c.call([("v", 4)])
            for k in ks:
                c.keep(k)
            if early:
                c.code.append(I("JEQ", lab_(".L9"), d, num(4, 0)))
                c.code.append(I("STRET", None, num(4, 3)))
                c.code.append(I("JMP", lab_(".L0")))
                c.code.append(L(".L9"))
            c.code.append(I("STRET", None, d))
            c.code.append(I("JMP", lab_(".L0")))
            add("RETURN %d values kept, early=%d" % (live, early), c.finish())
    # a loop around a call
    c = C()
    k = c.load()
    c.code.append(L(".L3"))
    d = c.call([("v", 4), ("k", k)])
    c.code.append(I("JNEQ", lab_(".L3"), d, num(4, 0)))
    c.keep(k)
    add("LOOP call in a loop keeps the value", c.finish())
    # instructions that borrow a register of the caller
    seven = num(4, 7)
    for opn in ("DIV", "MOD", "SAL", "SAR"):
        for pl in places(tier, 2, True):
            add("SCRATCH %s by a register at %s" % (opn, pl), binary(opn, 4, 0, None, pl))
        if opn in ("DIV", "MOD"):
            for pl in places(tier, 1, True):
                add("SCRATCH %s by a constant at %s" % (opn, pl), binary(opn, 4, 0, seven, pl))
    kinds = [("DIV", None), ("MOD", seven), ("SAL", None), ("ADD", None)]
    for pre in (0, 1, 2, 3, 4, 5):
        for k1 in kinds:
            for k2 in kinds:
                for live in (None, 0, 1, 2, 4):
                    if tier != "thorough" and live not in (None, pre % 3):
                        continue
                    for first in (False, True) if live is not None else (False,):
                        c = C()

                        def call():
                            ks = [c.load() for _ in range(live)]
                            d = c.call([("c", 4, 1)])
                            for k in ks:
                                c.keep(k)
                            c.keep(d)
                        if first:
                            call()
                        ks = [c.load() for _ in range(pre)]
                        for opn, snd in (k1, k2):
                            a = c.load(4)
                            b = snd or c.load(4)
                            d = c.new(4)
                            c.code.append(I(opn, d, a, b))
                            c.keep(d)
                        for k in ks:
                            c.keep(k)
                        if live is not None and not first:
                            call()
                        add("SCRATCH %s%s, %s%s with %d values, %s" % (k1[0], "" if k1[1] is None else " 7", k2[0], "" if k2[1] is None else " 7", pre,
                            "no call" if live is None else "%s a call that keeps %d" % ("after" if first else "before", live)), c.finish())
    # several functions in a row: nothing carries over
    for order in ((5, 0), (0, 5), (1, 1), (3, 2)):
        cs = []
        for q, live in enumerate(order):
            c = C(160 if q else 320, "fg"[q])
            ks = [c.load() for _ in range(live)]
            d = c.call([("c", 4, 1)] * (7 if q == 0 else 1))
            for k in ks:
                c.keep(k)
            c.keep(d)
            c.code.append(L(".L%d" % (q + 5)))
            c.code.append(I("LEAVE", None, num(0, c.frame)))
            cs.append(c.code)
        for q in (0, 1):
            add("PAIR of functions keeping %s, function %d" % (order, q), cs[0] + cs[1], "fg"[q])
    return S


def one(R, key, p, name):
    if key.startswith("STOP"):
        rule = "STOP"
        out, E, text = check(p, name)
        R.saw(E.visited)
        bad = [o for o in out if o[0] != "stop"]
        if bad:
            R.bad(rule, key, "src/x64gen", "; ".join("%s: %s" % o for o in bad[:3]) + " | " + (text or "").replace("\n", " ; ")[:600])
        else:
            R.ok(rule, key)
        return
    one_(R, key, p, FULL, name=name)


def run(R, tier):
    need("x64gen_generate_x64code")
    pmap(R, one, scenarios(tier))

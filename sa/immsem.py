"""Reference meaning of the intermediate code (the comments in src/immc/inst.h, with C's meaning of signedness)."""
from terms import *

BIN = {"ADD": "add", "SUB": "sub", "MUL": "mul", "AND": "and", "OR": "or", "XOR": "xor"}
CMP = {"EQ": "eq", "NEQ": "ne", "LT": "lt", "GT": "gt", "LEQ": "le", "GEQ": "ge"}


class Bad(Exception):
    pass


class Ref:
    def __init__(self, prog, max_dec=6, max_visit=3, pad=False):
        self.p = prog
        self.pad = pad   # a string at a multiple of 4 may also fill the padding up to the next multiple of 4 with zeros
        self.lab = {q[1]: i for i, q in enumerate(prog) if q[0] == "label"}
        self.paths = {}
        self.max_dec, self.max_visit = max_dec, max_visit

    def run(self):
        st = {"regs": {}, "ev": [], "args": [], "ret": None, "dec": (), "vis": {}}
        todo = [(0, st)]
        while todo:
            pc, st = todo.pop()
            todo += self.step(pc, st)
        return self.paths

    def fork(self, st):
        n = dict(st)
        for k in ("regs", "vis"):
            n[k] = dict(st[k])
        n["ev"] = list(st["ev"])
        n["args"] = [dict(a) for a in st["args"]]
        return n

    def end(self, st, how):
        self.paths[st["dec"]] = (how, st["ev"], st["ret"])
        return []

    def addr(self, st, o):
        if o[0] == "ptr":
            return self.rd(st, ("reg", 8, 1, o[1]))
        if o[0] == "mem":
            return spa(-8 - o[1])
        if o[0] == "lab":
            return x(8, "&" + o[1])
        raise Bad("no address: %s" % (o,))

    def rd(self, st, o):
        if o[0] == "int":
            return c(o[1], o[3])
        v = st["regs"].get(o[3])
        if v is None or v[1] < o[1]:
            raise Bad("register %s read before it is written" % (o,))
        return lo(o[1], v)

    def val(self, st, o, w, u=None):
        """operand value at width w"""
        if o[0] == "int":
            return c(w, o[3])
        return ext(w, self.rd(st, o), o[2])

    def step(self, pc, st):
        while True:
            if pc >= len(self.p):
                raise Bad("control runs off the end")
            q = self.p[pc]
            pc += 1
            if q[0] == "flabel":
                continue
            if q[0] == "label":
                n = st["vis"].get(q[1], 0) + 1
                st["vis"][q[1]] = n
                if n > self.max_visit:
                    return self.end(st, ("cut", q[1]))
                continue
            _, k, d, a, b = q
            regs, ev = st["regs"], st["ev"]
            if k == "LOAD":
                w = d[1]
                if a[0] in ("ptr", "mem", "lab"):
                    v = ("ld", w, self.addr(st, a), version(ev))
                else:
                    v = self.val(st, a, w)
                regs[d[3]] = v
            elif k == "ADDR":
                regs[d[3]] = self.addr(st, a)
            elif k == "STR":
                bs = a[1]
                if self.pad and d[1] % 4 == 0:
                    bs = bs + bytes(-len(bs) % 4)
                for i, ch in enumerate(bs):
                    ev.append(("store", op("add", 8, self.addr(st, d), c(8, i)), 1, c(1, ch)))
            elif k == "STORE":
                ev.append(("store", self.addr(st, d), a[1], self.rd(st, a)))
            elif k == "LDARG":
                ev.append(("store", self.addr(st, d), a[1], lo(a[1], x(8, "arg%d" % a[2]))))
            elif k == "PREP":
                st["args"].append({})
            elif k == "STARG":
                st["args"][-1][d[2]] = self.rd(st, a)
            elif k == "CALL":
                n = sum(1 for e in ev if e[0] == "call")
                args = st["args"][-1]
                if sorted(args) != list(range(b[3])):
                    raise Bad("arguments of the call")
                ev.append(("call", self.addr(st, a), tuple(args[i] for i in range(b[3]))))
                if d is not None:
                    regs[d[3]] = lo(d[1], x(8, "ret%d" % n))
            elif k == "CLEAN":
                st["args"].pop()
            elif k == "ENTER":
                pass
            elif k == "LEAVE":
                return self.end(st, ("ret",))
            elif k == "STRET":
                st["ret"] = self.rd(st, a)
            elif k in ("NEG", "NOT"):
                regs[d[3]] = ext(d[1], op(k.lower(), a[1], self.rd(st, a)), a[2] if a[0] == "reg" else 0)
            elif k in BIN:
                w = max(a[1], b[1])
                regs[d[3]] = ext(d[1], op(BIN[k], w, self.val(st, a, w), self.val(st, b, w)), d[2])
            elif k in ("DIV", "MOD"):
                w = max(a[1], b[1])
                nm = ("u" if a[2] else "s") + ("div" if k == "DIV" else "rem")
                regs[d[3]] = ext(d[1], (nm, w, self.val(st, a, w), self.val(st, b, w)), d[2])
            elif k in ("SAL", "SAR"):
                w = a[1]
                nm = "shl" if k == "SAL" else ("shr" if a[2] else "sar")
                n = b[3] if b[0] == "int" else self.rd(st, b)
                regs[d[3]] = ext(d[1], op(nm, w, self.rd(st, a), n), d[2])
            elif k.startswith("SET"):
                regs[d[3]] = boolean(d[1], self.cmp(st, k[3:], a, b))
            elif k == "JMP":
                pc = self.lab[d[1]]
            elif k.startswith("J"):
                base, pol = self.cmp(st, k[1:], a, b)
                if base[0] == "const":
                    if base[2] == pol:
                        pc = self.lab[d[1]]
                    continue
                if len(st["dec"]) >= self.max_dec:
                    return self.end(st, ("cut", "decisions"))
                t = self.fork(st)
                t["dec"] = st["dec"] + ((base, pol),)
                st["dec"] = st["dec"] + ((base, not pol),)
                return [(self.lab[d[1]], t), (pc, st)]
            else:
                raise Bad(k)

    def cmp(self, st, k, a, b):
        w = max(a[1], b[1])
        k = CMP[k]
        if k not in ("eq", "ne"):
            k = ("u" if a[2] else "s") + k
        return cond(k, self.val(st, a, w), self.val(st, b, w))

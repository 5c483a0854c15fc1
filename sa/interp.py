"""Interprocedural abstract interpreter over the resolved syntax tree.

Abstract domain
  * integers: constants, and linear forms over value numbers, with interval / finite-set facts
  * pointers: abstract objects (allocation sites), or value numbers (access paths) for unknown input
  * containers: abstract sequences  (single items | "everything of V" | "repeated by loop L")
  * facts are partitioned per path, and joined again when two paths reach the same abstract store
  * loops whose bound is not a constant are summarised: every location the body can change is
    widened, counters become  init + step * iteration  and the body is analysed once from there.
No code of the repository is executed and no solver is involved."""
import sys
from functools import lru_cache

sys.setrecursionlimit(12000)

INF = float("inf")


class Undecided(Exception):
    pass


class Budget(Undecided):
    pass


# ------------------------------------------------------------------ terms
_order = {}


def order(t):
    o = _order.get(t)
    if o is None:
        o = len(_order)
        _order[t] = o
    return o


def trunc_int(x, bits, signed):
    x &= (1 << bits) - 1
    return x - (1 << bits) if signed and x >> (bits - 1) else x


@lru_cache(maxsize=200000)
def strip(t):
    """erase copy markers from a term: a copy has the same content as its original"""
    if isinstance(t, tuple):
        if t and t[0] == "cp":
            return strip(t[2])
        return tuple(strip(x) for x in t)
    return t


def lin_parts(v):
    if isinstance(v, int):
        return v, {}
    if isinstance(v, tuple) and v and v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk_lin(k, d):
    d = {t: c for t, c in d.items() if c != 0}
    if not d:
        return k
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ("lin", k, tuple(sorted(d.items(), key=lambda x: order(x[0]))))


def ladd(a, b, s=1):
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + s * c
    return mk_lin(ka + s * kb, da)


def lmul(a, c):
    k, d = lin_parts(a)
    return mk_lin(k * c, {t: x * c for t, x in d.items()})


def is_ptr(v):
    return isinstance(v, tuple) and v and v[0] in ("p", "s", "fn")


def mk_cmp(op, a, b):
    """-> int or condition term"""
    if is_ptr(a) or is_ptr(b):
        if op in ("==", "!="):
            if is_ptr(a) and is_ptr(b):
                r = int(a == b)
                return r if op == "==" else 1 - r
            p, o = (a, b) if is_ptr(a) else (b, a)
            if isinstance(o, int):
                r = 0
            else:
                # an abstract object against an unknown pointer: distinct
                r = 0
            return r if op == "==" else 1 - r
        if is_ptr(a) and is_ptr(b) and a[0] == b[0] == "p" and a[1] == b[1] and a[2][:-1] == b[2][:-1]:
            return mk_cmp(op, a[2][-1] if a[2] else 0, b[2][-1] if b[2] else 0)
        return ("op", op, a, b)
    if a == b:
        return int(op in ("==", "<=", ">="))
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_cmp("<=", b, a)
    # boolean terms compared against 0/1
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and isinstance(x, tuple) and x[0] in ("eq", "le", "not"):
            if op == "==":
                return mk_not(x) if y == 0 else (x if y == 1 else 0)
            if op == "!=":
                return x if y == 0 else (mk_not(x) if y == 1 else 1)
    d = ladd(a, b, -1)
    if isinstance(d, int):
        return int({"==": d == 0, "!=": d != 0, "<": d < 0, "<=": d <= 0}[op])
    if op == "==":
        return ("eq", d)
    if op == "!=":
        return ("not", ("eq", d))
    if op == "<":
        return ("le", ladd(d, 1))
    return ("le", d)


def mk_not(v):
    if isinstance(v, int):
        return int(v == 0)
    if is_ptr(v):
        return 0
    if v[0] == "not":
        return as_bool(v[1])
    if v[0] in ("eq", "le"):
        return ("not", v)
    return ("eq", v)


def as_bool(v):
    """truth value as 0/1 or a condition term"""
    if isinstance(v, int):
        return int(v != 0)
    if is_ptr(v):
        return 1
    if v[0] in ("eq", "le", "not"):
        return v
    return ("not", ("eq", v))


# ------------------------------------------------------------------ value sets
class Dom:
    """set of integers: finite set or interval minus a finite set"""
    __slots__ = ("s", "lo", "hi", "ex")

    def __init__(self, s=None, lo=-INF, hi=INF, ex=frozenset()):
        self.s = s
        self.lo, self.hi, self.ex = lo, hi, ex
        if s is None and hi - lo <= 64:
            self.s = frozenset(i for i in range(int(lo), int(hi) + 1) if i not in ex)

    def __eq__(self, o):
        return isinstance(o, Dom) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def key(self):
        return ("s", self.s) if self.s is not None else ("r", self.lo, self.hi, self.ex)

    def meet(self, o):
        if self.s is not None:
            return Dom(frozenset(i for i in self.s if o.has(i)))
        if o.s is not None:
            return o.meet(self)
        return Dom(None, max(self.lo, o.lo), min(self.hi, o.hi), self.ex | o.ex)

    def has(self, i):
        if self.s is not None:
            return i in self.s
        return self.lo <= i <= self.hi and i not in self.ex

    def empty(self):
        return (self.s is not None and not self.s) or (self.s is None and self.lo > self.hi)

    def min(self):
        return min(self.s) if self.s is not None else self.lo

    def max(self):
        return max(self.s) if self.s is not None else self.hi

    def const(self):
        if self.s is not None and len(self.s) == 1:
            return next(iter(self.s))
        return None

    def join(self, o):
        if self.s is not None and o.s is not None:
            return Dom(self.s | o.s)
        lo, hi = min(self.min(), o.min()), max(self.max(), o.max())
        if self.s is None and o.s is None:
            ex = frozenset(i for i in self.ex | o.ex if not self.has(i) and not o.has(i))
            # adjacent/overlapping intervals only: otherwise over-approximate
            return Dom(None, lo, hi, ex)
        r, f = (self, o) if self.s is None else (o, self)
        ex = frozenset(i for i in r.ex if i not in f.s)
        return Dom(None, lo, hi, ex)

    def __repr__(self):
        if self.s is not None:
            return "{%s}" % ",".join(map(str, sorted(self.s)))
        return "[%s,%s]%s" % (self.lo, self.hi, "\\%s" % sorted(self.ex) if self.ex else "")


TOP = Dom()


def lin_key(d):
    """condition on linear form d: -> (key, sign, k) with d = sign*key + k"""
    k, parts = lin_parts(d)
    items = sorted(parts.items(), key=lambda x: order(x[0]))
    sign = 1
    if items[0][1] < 0:
        sign = -1
        items = [(t, -c) for t, c in items]
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0], sign, k
    return ("lin", 0, tuple(items)), sign, k


# ------------------------------------------------------------------ store
class Obj:
    __slots__ = ("kind", "f", "x", "freed", "ty", "site")

    def __init__(self, kind, ty=None, x=None, site=None):
        self.kind = kind
        self.f = {}
        self.x = x
        self.freed = False
        self.ty = ty
        self.site = site

    def clone(self):
        o = Obj(self.kind, self.ty, self.x, self.site)
        o.f = dict(self.f)
        o.freed = self.freed
        return o


class State:
    __slots__ = ("objs", "own", "mut", "facts", "fown", "ev", "cnt", "aux")

    def __init__(self):
        self.objs = {}
        self.own = True
        self.mut = set()
        self.facts = {}
        self.fown = True
        self.ev = None
        self.cnt = {}
        self.aux = ()

    def fork(self):
        s = State.__new__(State)
        s.objs, s.facts, s.ev, s.cnt, s.aux = self.objs, self.facts, self.ev, dict(self.cnt), self.aux
        s.own = s.fown = False
        self.own = self.fown = False
        s.mut = set()
        self.mut = set()
        return s

    def wobj(self, oid):
        if not self.own:
            self.objs = dict(self.objs)
            self.own = True
        o = self.objs[oid]
        if oid not in self.mut:
            o = o.clone()
            self.objs[oid] = o
            self.mut.add(oid)
        return o

    def put(self, oid, obj):
        if not self.own:
            self.objs = dict(self.objs)
            self.own = True
        self.objs[oid] = obj
        self.mut.add(oid)

    def drop(self, oids):
        if not self.own:
            self.objs = dict(self.objs)
            self.own = True
        for o in oids:
            self.objs.pop(o, None)

    def setfact(self, k, d):
        if not self.fown:
            self.facts = dict(self.facts)
            self.fown = True
        self.facts[k] = d

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def fresh(self, tag):
        n = self.cnt.get(tag, 0)
        self.cnt[tag] = n + 1
        return n


class Frame:
    __slots__ = ("fn", "id", "va", "tu", "name")


INT_TYPES = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
             "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
             "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
             "_Bool": (1, False), "unsigned": (32, False), "size_t": (64, False), "va_list": (64, False)}


def int_type(ty):
    if not ty:
        return None
    t = ty[1] or ty[0]
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t in INT_TYPES:
        return INT_TYPES[t]
    if t.startswith("enum "):
        return (32, False)
    t = ty[0]
    return INT_TYPES.get(t)


def wrap(v, ty):
    it = int_type(ty)
    if it is None or not isinstance(v, int):
        return v
    bits, sg = it
    if bits == 1:
        return int(v != 0)
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


def is_ptr_type(ty):
    return bool(ty) and (ty[1] or ty[0]).rstrip().endswith("*")


def pointee(ty):
    t = (ty[1] or ty[0]).rstrip()
    return t[:-1].strip() if t.endswith("*") else None


NORMAL, BREAK, CONT = "normal", "break", "continue"


SITES = set()                  # call sites evaluated by this process


class Engine:
    def __init__(self, prog, models=None, max_states=4000, max_steps=3000000, unroll=400):
        self.P = prog
        self.models = dict(BASE_MODELS)
        if models:
            self.models.update(models)
        self.max_states = max_states
        self.max_steps = max_steps
        self.steps = 0
        self.unroll = unroll
        self.terminated = []
        self.frame_no = 0
        self.heap_no = 0
        self.loop_no = 0
        self.stack = []
        self.termty = {}
        self.maxrec = 1
        self.opaque_on_rec = True
        self.visited = set()       # functions analysed
        self.calls_seen = 0
        self.dry = 0
        self.findings = []
        self.unknown_ext = set()
        self.nonnull = lambda t: False
        self.check_mem = False     # record uaf / double free / null deref findings
        self.loop_info = {}
        self.max_unroll_sym = 0
        self.check_bounds = False  # record accesses outside allocations of known size
        self.force_unroll = False  # follow every path of loops with undecided conditions
        self.on_limit = None
        self.default_opaque = set()
        self.entry_callees = []

    # ---------------------------------------------------------------- facts
    def term_dom(self, t):
        ty = self.termty.get(t)
        if ty is None:
            return TOP
        if ty[0] in self.P.enumtypes:
            return Dom(frozenset(v for _, v in self.P.enumtypes[ty[0]]))
        if (ty[1] or "").startswith("enum ") and ty[1][5:] in self.P.enumtypes:
            return Dom(frozenset(v for _, v in self.P.enumtypes[ty[1][5:]]))
        it = int_type(ty)
        if it and not it[1]:
            return Dom(None, 0, INF)
        return TOP

    def dom(self, s, key):
        key = strip(key)
        d = s.facts.get(key)
        if d is not None:
            return d
        if isinstance(key, tuple) and key and key[0] == "trunc":
            p = self.dom(s, key[3])
            if p.s is not None and len(p.s) <= 300:
                return Dom(frozenset(trunc_int(x, key[1], key[2]) for x in p.s))
        if isinstance(key, tuple) and key[0] == "lin":
            # interval arithmetic over the parts
            lo = hi = 0
            for t, c in key[2]:
                p = self.dom(s, t)
                a, b = p.min() * c if p.min() not in (INF, -INF) else p.min() * (1 if c > 0 else -1), \
                    p.max() * c if p.max() not in (INF, -INF) else p.max() * (1 if c > 0 else -1)
                lo += min(a, b)
                hi += max(a, b)
                if lo != lo or hi != hi:
                    return TOP
            return Dom(None, lo, hi)
        if isinstance(key, tuple) and key[0] in ("size", "strlen", "it"):
            return Dom(None, 0, INF)
        if self.nonnull(key):
            return Dom(None, -INF, INF, frozenset([0]))
        return self.term_dom(key)

    def assume(self, s, key, dom):
        """restrict key to dom; -> False if impossible"""
        key = strip(key)
        if isinstance(key, tuple) and key and key[0] == "trunc" and key not in s.facts:
            p = self.dom(s, key[3])
            if p.s is not None and len(p.s) <= 300:
                return self.assume(s, key[3], Dom(frozenset(x for x in p.s if dom.has(trunc_int(x, key[1], key[2])))))
        d = self.dom(s, key).meet(dom)
        if d.empty():
            return False
        s.setfact(strip(key), d)
        return True

    def known(self, s, c):
        """truth of a condition term if decided by the facts, else None"""
        if isinstance(c, int):
            return c != 0
        if is_ptr(c):
            return True
        if c[0] == "not":
            r = self.known(s, c[1])
            return None if r is None else not r
        if c[0] == "eq":
            key, sg, k = lin_key(c[1])
            d = self.dom(s, key)
            v = -k * sg
            if not d.has(v):
                return False
            if d.const() == v:
                return True
            return None
        if c[0] == "le":
            key, sg, k = lin_key(c[1])
            d = self.dom(s, key)
            # sg*key + k <= 0
            if sg == 1:
                if d.max() <= -k:
                    return True
                if d.min() > -k:
                    return False
            else:
                if d.min() >= k:
                    return True
                if d.max() < k:
                    return False
            return None
        d = self.dom(s, c)
        if not d.has(0):
            return True
        if d.const() == 0:
            return False
        return None

    def constrain(self, s, c, truth):
        if isinstance(c, int) or is_ptr(c):
            return (c != 0) == truth
        if c[0] == "not":
            return self.constrain(s, c[1], not truth)
        if c[0] == "eq":
            key, sg, k = lin_key(c[1])
            v = -k * sg
            if truth:
                return self.assume(s, key, Dom(frozenset([v])))
            return self.assume(s, key, Dom(None, -INF, INF, frozenset([v])))
        if c[0] == "le":
            key, sg, k = lin_key(c[1])
            if sg == 1:
                d = Dom(None, -INF, -k) if truth else Dom(None, -k + 1, INF)
            else:
                d = Dom(None, k, INF) if truth else Dom(None, -INF, k - 1)
            return self.assume(s, key, d)
        if truth:
            return self.assume(s, c, Dom(None, -INF, INF, frozenset([0])))
        return self.assume(s, c, Dom(frozenset([0])))

    def decide(self, s, v):
        """-> list of (bool, state)"""
        c = as_bool(v)
        r = self.known(s, c)
        if r is not None:
            return [(r, s)]
        out = []
        s2 = s.fork()
        if self.constrain(s, c, True):
            out.append((True, s))
        if self.constrain(s2, c, False):
            out.append((False, s2))
        return out

    def resolve(self, s, v):
        """replace a term by its constant when the facts fix it"""
        if isinstance(v, tuple) and not is_ptr(v):
            if v[0] in ("eq", "le", "not"):
                r = self.known(s, v)
                return v if r is None else int(r)
            if v[0] == "lin":
                key, sg, k = lin_key(v)
                c = self.dom(s, key).const()
                return v if c is None else sg * c + k
            c = self.dom(s, v).const()
            return v if c is None else c
        return v

    # ---------------------------------------------------------------- joins
    def join_states(self, rs):
        """rs: list of (tag, state) - join states with the same store and events that differ in one fact"""
        if len(rs) < 2:
            return rs
        out = []
        for tag, s in rs:
            done = False
            for i, (t2, s2) in enumerate(out):
                if t2 != tag or s2.ev is not s.ev or s2.aux != s.aux:
                    continue
                if not (s2.objs is s.objs or s2.objs == s.objs):
                    continue
                f1, f2 = s2.facts, s.facts
                diff = [k for k in set(f1) | set(f2) if f1.get(k) != f2.get(k)]
                if not diff:
                    done = True
                    break
                if len(diff) == 1:
                    k = diff[0]
                    a, b = self.dom(s2, k), self.dom(s, k)
                    j = a.join(b)
                    # exact unions only, so no precision is invented or lost silently
                    exact = (a.s is not None and b.s is not None) or self._exact(a, b, j)
                    if exact:
                        n = s2.fork()
                        n.setfact(k, j)
                        if j == self.base_dom(k):
                            n.facts.pop(k, None)
                        out[i] = (t2, n)
                        done = True
                        break
            if not done:
                out.append((tag, s))
        if len(out) < len(rs) and len(out) > 1:
            return self.join_states(out)
        return out

    def base_dom(self, k):
        if isinstance(k, tuple) and k[0] in ("size", "strlen", "it"):
            return Dom(None, 0, INF)
        if self.nonnull(k):
            return Dom(None, -INF, INF, frozenset([0]))
        return self.term_dom(k) if not (isinstance(k, tuple) and k[0] == "lin") else TOP

    @staticmethod
    def _exact(a, b, j):
        # is j exactly a|b ?  (checked on the finitely many boundary points)
        pts = set()
        for d in (a, b, j):
            if d.s is not None:
                pts |= set(d.s)
            else:
                pts |= set(d.ex)
                for e in (d.lo, d.hi):
                    if e not in (INF, -INF):
                        pts |= {e - 1, e, e + 1}
        pts |= {p + x for p in list(pts) for x in (-1, 1)}
        pts |= {-10**6, 10**6}
        return all((a.has(p) or b.has(p)) == j.has(p) for p in pts)

    # ---------------------------------------------------------------- memory
    def finding(self, s, kind, node, detail):
        if self.dry:
            return
        self.findings.append((kind, getattr(node, "file", ""), getattr(node, "line", 0),
                              self.stack[-1].name if self.stack else "?", detail, s))

    def new_heap(self, s, kind="heap", ty=None, x=None, site=None):
        self.heap_no += 1
        oid = ("H", self.heap_no)
        s.put(oid, Obj(kind, ty, x, site))
        return oid

    def dead(self, s, why, node):
        if not self.dry:
            self.terminated.append((why, s, node))
        return []

    def deref(self, s, v, node):
        """pointer value -> list of ((oid, path), state)"""
        if isinstance(v, int):
            if v == 0:
                self.finding(s, "null-deref", node, "a null pointer is dereferenced")
                return self.dead(s, "null-deref", node)
            raise Undecided("deref of integer %r at %r" % (v, node))
        if v[0] == "p":
            o = s.objs.get(v[1])
            if o is None and v[1][0] == "G":
                o = self.ensure(s, v[1])
            if o is None:
                raise Undecided("dangling local at %r" % (node,))
            if o.freed:
                self.finding(s, "use-after-free", node, "released object used (allocated at %s)" % (o.site,))
            return [((v[1], v[2]), s)]
        if v[0] == "s":
            oid = ("S", v[1])
            if oid not in s.objs:
                s.put(oid, Obj("cstr", None, v[1]))
            return [((oid, ()), s)]
        if v[0] == "fn":
            raise Undecided("deref of function")
        d = self.dom(s, v)
        if d.const() == 0:
            self.finding(s, "null-deref", node, "null %s is dereferenced" % (show(v),))
            return self.dead(s, "null-deref", node)
        if d.has(0) and self.maybe_null(s, v):
            self.finding(s, "maybe-null-deref", node, "%s may be null here" % (show(v),))
        if d.has(0):
            self.assume(s, v, Dom(None, -INF, INF, frozenset([0])))
        oid = ("D", v)
        if oid not in s.objs:
            s.put(oid, Obj("sym", None, v))
        elif s.objs[oid].freed:
            self.finding(s, "use-after-free", node, "released object %s used" % (show(v),))
        return [((oid, ()), s)]

    def maybe_null(self, s, v):
        return False

    def addr(self, loc):
        oid, path = loc
        if oid[0] == "D" and path == ():
            return oid[1]
        if oid[0] == "S" and path == ():
            return ("s", oid[1])
        return ("p", oid, path)

    def ensure(self, s, oid):
        if oid not in s.objs:
            if oid[0] == "G":
                self.init_global(s, oid)
            elif oid[0] == "D":
                s.put(oid, Obj("sym", None, oid[1]))
            elif oid[0] == "S":
                s.put(oid, Obj("cstr", None, oid[1]))
            else:
                raise Undecided("unknown object %r" % (oid,))
        return s.objs[oid]

    def init_global(self, s, oid):
        g = self.P.gvars.get((oid[1], oid[2]))
        o = Obj("glob", g[1] if g else None)
        s.put(oid, o)
        if oid[2] in ("stdin", "stdout", "stderr"):
            t = ("in", ("FILE", oid[2]))
            o.f[()] = t
            s.put(("D", t), Obj("sym", None, t))
            self.assume(s, t, Dom(None, -INF, INF, frozenset([0])))
        if g and g[0] is not None:
            fr = Frame()
            fr.fn, fr.id, fr.va, fr.tu, fr.name = None, -1, (), oid[1] or g[3], "<global %s>" % oid[2]
            self.stack.append(fr)
            rs = self.init_obj(s, oid, (), g[0], g[1])
            self.stack.pop()
            if len(rs) != 1:
                raise Undecided("global init")

    def bounds(self, s, o, path, ty, node, what):
        """the last step of an access to an element of an object of known size"""
        if not path or isinstance(path[-1], (str, tuple, bool)) or not isinstance(path[-1], int) or o.kind in ("sym", "cstr", "vec", "map"):
            return
        n = None
        if len(path) == 1 and ("#size",) in o.f:
            sz, es = o.f[("#size",)], self.sizeof(ty) if ty else None
            if isinstance(sz, tuple):
                sz = strip(sz)
            if isinstance(es, int) and isinstance(sz, int):
                n = sz // es
            elif isinstance(es, tuple) and isinstance(sz, tuple):
                n = 1 if sz == es else (sz[2][0][1] if sz[0] == "lin" and sz[1] == 0 and len(sz[2]) == 1 and sz[2][0][0] == es else None)
        elif o.ty and len(path) == 1:
            t = o.ty[1] or o.ty[0]
            if t.endswith("]") and t.count("[") == 1:
                n = int(t[t.index("[") + 1:-1] or 0)
        if n is not None and not 0 <= path[-1] < n:
            self.finding(s, "out-of-bounds", node, "element %d of %d is %s" % (path[-1], n, what))

    def read(self, s, loc, ty, node):
        oid, path = loc
        o = self.ensure(s, oid)
        if self.check_bounds:
            self.bounds(s, o, path, ty, node, "read")
        # struct rvalue
        if path in o.f:
            return o.f[path]
        tname = (ty[1] if ty else "") or ""
        if tname.startswith("struct ") and not tname.endswith("*"):
            n = len(path)
            return ("struct", tuple(sorted(((p[n:], v) for p, v in o.f.items() if p[:n] == path and p != path),
                                           key=repr)), loc if o.kind == "sym" else None)
        if o.kind == "cstr":
            i = path[-1] if path else 0
            if isinstance(i, int):
                if 0 <= i < len(o.x):
                    c = ord(o.x[i])
                    return c - 256 if c > 127 else c
                if i == len(o.x):
                    return 0
            return ("idx", ("s", o.x), i)
        if o.kind in ("str", "buf") and o.x is not None:
            i = path[-1] if path else 0
            txt = pieces_text(o.x)
            if txt is not None and isinstance(i, int) and not isinstance(i, bool):
                if 0 <= i < len(txt):
                    c = ord(txt[i])
                    return c - 256 if c > 127 else c
                if i == len(txt):
                    return 0
            return ("idx", ("strv", o.x), i)
        if path and path[-1:] == (0,) and path[:-1] in o.f and o.kind != "sym":
            return o.f[path[:-1]]
        if path + (0,) in o.f:
            return o.f[path + (0,)]
        if o.kind == "sym":
            t = o.x
            for p in path:
                t = ("fld", t, p) if isinstance(p, str) else ("idx", t, p)
            if not path:
                t = ("deref", t)
            t2 = strip(t)
            if t2 not in self.termty and ty:
                self.termty[t2] = ty
            return t
        if o.kind == "zero" or (o.kind == "glob"):
            return 0
        if path and isinstance(path[-1], tuple) or any(isinstance(p, tuple) for q in o.f for p in q):
            # element selected by an unknown index
            items = tuple(sorted(((p, v) for p, v in o.f.items()), key=repr))
            return ("sel", oid if oid[0] == "G" else ("arr", items), path[-1] if path else 0)
        if any(p[:len(path)] == path for p in o.f if len(p) > len(path)):
            pass
        if self.check_mem:
            self.finding(s, "uninit", node, "read of an uninitialised location %s" % (path,))
        return ("undef", oid, path)

    def write(self, s, loc, v, node=None):
        oid, path = loc
        self.ensure(s, oid)
        o = s.wobj(oid)
        if self.check_bounds and node is not None and node.k != "InitListExpr":
            self.bounds(s, o, path, getattr(node, "ty", None), node, "written")
        if isinstance(v, tuple) and v and v[0] == "struct":
            for p, x in v[1]:
                o.f[path + p] = x
            return
        if o.kind in ("str", "buf") and o.x is not None and path:
            # character store into a text buffer
            i = path[-1]
            txt = pieces_text(o.x)
            if isinstance(i, int) and txt is not None and isinstance(v, int):
                if i == len(txt):
                    if v:
                        o.x = norm_pieces(o.x + (chr(v & 255),))
                    return
                if 0 <= i < len(txt):
                    o.x = norm_pieces((txt[:i],) if v == 0 else (txt[:i] + chr(v & 255) + txt[i + 1:],))
                    return
            if v == 0:
                # terminator at an unknown position: content is a prefix cut
                o.x = (("cut", o.x, i),)
                return
            o.x = (("upd", o.x, i, v),)
            return
        if path and isinstance(path[-1], tuple):
            # store at an unknown index: forget other elements
            pre = path[:-1]
            for q in [q for q in o.f if q[:-1] == pre and q != path and not isinstance(q[-1], str)]:
                del o.f[q]
        o.f[path] = v
        if path == () and isinstance(v, (int, tuple)):
            o.f.pop((0,), None)

    # ---------------------------------------------------------------- expressions
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Budget("step budget")

    def evs(self, exprs, s):
        rs = [([], s)]
        for e in exprs:
            nr = []
            for vs, st in rs:
                for v, st2 in self.ev(e, st):
                    nr.append((vs + [v], st2))
            rs = nr
        return rs

    def lval(self, n, s):
        """-> list of ((oid, path), state)"""
        k = n.k
        if k == "ParenExpr":
            return self.lval(n.c[0], s)
        if k == "DeclRefExpr":
            return [((self.var_oid(n, s), ()), s)]
        if k == "MemberExpr":
            out = []
            nm = n.name
            if n.x.get("isArrow"):
                for v, s1 in self.ev(n.c[0], s):
                    for (oid, path), s2 in self.deref(s1, v, n):
                        out.append(((oid, path + ((nm,) if nm else ())), s2))
            else:
                for (oid, path), s1 in self.lval(n.c[0], s):
                    out.append(((oid, path + ((nm,) if nm else ())), s1))
            return out
        if k == "ArraySubscriptExpr":
            out = []
            for (b, i), s1 in ((tuple(vs), st) for vs, st in self.evs(n.c, s)):
                if isinstance(b, int) or (int_type(n.c[0].ty) and not is_ptr_type(n.c[0].ty)):
                    b, i = i, b
                i = self.resolve(s1, i)
                for (oid, path), s2 in self.deref(s1, b, n):
                    out.append(((oid, self.idx_path(path, i)), s2))
            return out
        if k == "UnaryOperator" and n.op == "*":
            out = []
            for v, s1 in self.ev(n.c[0], s):
                out += self.deref(s1, v, n)
            return out
        if k == "UnaryOperator" and n.op == "__extension__":
            return self.lval(n.c[0], s)
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.cast in ("NoOp", "LValueBitCast", "BitCast"):
            return self.lval(n.c[0], s)
        if k == "StringLiteral":
            return [((("S", self.strlit(n)), ()), s)]
        if k == "CompoundLiteralExpr":
            oid = self.new_heap(s, "local", n.ty)
            return [((oid, ()), st) for st in self.init_obj(s, oid, (), n.c[0], n.ty)]
        # rvalue struct (call result etc.): spill to a temporary
        out = []
        for v, s1 in self.ev(n, s):
            oid = self.new_heap(s1, "local", n.ty)
            self.write(s1, (oid, ()), v, n)
            out.append(((oid, ()), s1))
        return out

    @staticmethod
    def idx_path(path, i):
        if path and not isinstance(path[-1], str):
            return path[:-1] + (ladd(path[-1], i),)
        return path + (i,)

    def strlit(self, n):
        from front import strval
        if n.val is None:
            return ""
        return strval(n.val)

    def var_oid(self, n, s):
        kind, name, did = n.ref
        fr = self.stack[-1]
        oid = ("L", fr.id, did)
        if oid in s.objs:
            return oid
        # file scope / static local
        for key in ((fr.tu, name), (None, name)):
            if key in self.P.gvars:
                g = self.P.gvars[key]
                oid = ("G", key[0], name)
                if oid not in s.objs:
                    self.init_global(s, oid)
                return oid
        oid = ("G", "?", name)
        if oid not in s.objs:
            s.put(oid, Obj("sym", None, ("ext", name)))
        return oid

    def ev(self, n, s):
        """-> list of (value, state)"""
        self.tick()
        k = n.k
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Undecided("expression %s" % n.k)
        return f(n, s)

    def e_ParenExpr(self, n, s):
        return self.ev(n.c[0], s)

    def e_ConstantExpr(self, n, s):
        if n.val is not None:
            try:
                return [(int(n.val), s)]
            except ValueError:
                pass
        return self.ev(n.c[0], s)

    def e_IntegerLiteral(self, n, s):
        return [(int(n.val), s)]

    def e_CharacterLiteral(self, n, s):
        return [(int(n.val), s)]

    def e_StringLiteral(self, n, s):
        return [(("s", self.strlit(n)), s)]

    def e_ImplicitCastExpr(self, n, s):
        ck = n.cast
        sub = n.c[0]
        if ck == "LValueToRValue":
            return [(self.resolve(st, self.read(st, loc, n.ty, n)), st) for loc, st in self.lval(sub, s)]
        if ck == "ArrayToPointerDecay":
            t = sub
            while t.k == "ParenExpr":
                t = t.c[0]
            if t.k == "StringLiteral":
                return [(("s", self.strlit(t)), s)]
            if t.k == "PredefinedExpr":
                return [(("s", "<fn>"), s)]
            return [(self.addr((loc[0], loc[1] + (0,))) if not self.is_buf(st, loc) else self.addr(loc), st)
                    for loc, st in self.lval(sub, s)]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(sub, s)
        if ck == "NullToPointer":
            return [(0, s)]
        if ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "BooleanToSignedIntegral"):
            out = []
            for v, st in self.ev(sub, s):
                if ck in ("IntegralToBoolean", "PointerToBoolean"):
                    out.append((as_bool(v), st))
                else:
                    out.append((self.icast(wrap(v, n.ty), sub.ty, n.ty, st), st))
            return out
        return self.ev(sub, s)

    def icast(self, v, fty, tty, s=None):
        if isinstance(v, tuple) and not is_ptr(v):
            a, b = int_type(fty), int_type(tty)
            if a and b and (b[0] < a[0] or (b[0] == 8 and a[0] == 8 and a[1] != b[1])):
                if s is not None:
                    d = self.dom(s, v)
                    if d.s is not None and len(d.s) <= 300 and all(trunc_int(x, b[0], b[1]) == x for x in d.s):
                        return v
                return ("trunc", b[0], b[1], v)
        return v

    def is_buf(self, s, loc):
        o = s.objs.get(loc[0])
        return o is not None and loc[1] == () and o.kind == "buf"

    e_CStyleCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, n, s):
        kind, name, did = n.ref
        if kind == "FunctionDecl":
            return [(("fn", name, self.stack[-1].tu), s)]
        if kind == "EnumConstantDecl":
            return [(self.P.enumval[name], s)]
        # an lvalue used directly (arrays/records)
        return [(self.addr(loc), st) for loc, st in self.lval(n, s)]

    def e_MemberExpr(self, n, s):
        return [(self.read(st, loc, n.ty, n), st) for loc, st in self.lval(n, s)]

    e_ArraySubscriptExpr = e_MemberExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, s):
        t = n.x.get("argType")
        ty = (t.get("qualType"), t.get("desugaredQualType", t.get("qualType"))) if t else (n.c[0].ty if n.c else None)
        if n.c and not t and n.c[0].k == "ParenExpr":
            ty = n.c[0].ty
        return [(self.sizeof(ty), s)]

    def sizeof(self, ty):
        it = int_type(ty)
        if it and not is_ptr_type(ty):
            return max(1, it[0] // 8)
        t = ty[1] or ty[0]
        if t.endswith("*"):
            return 8
        if t.endswith("]"):
            b, n = t.rsplit("[", 1)
            base = self.sizeof((b.strip(), b.strip()))
            if isinstance(base, int):
                return base * int(n[:-1] or 0)
        return ("sizeof", t)

    def e_VAArgExpr(self, n, s):
        fr = self.stack[-1]
        pos = s.cnt.get(("va", fr.id), 0)
        s.cnt[("va", fr.id)] = pos + 1
        if isinstance(fr.va, tuple) and pos < len(fr.va):
            return [(fr.va[pos], s)]
        return [(("vaarg", fr.id, pos), s)]

    def e_InitListExpr(self, n, s):
        oid = self.new_heap(s, "local", n.ty)
        rs = self.init_obj(s, oid, (), n, n.ty)
        return [(self.read(st, (oid, ()), n.ty, n), st) for st in rs]

    def e_ConditionalOperator(self, n, s):
        out = []
        for b, st in self.cond(n.c[0], s):
            out += self.ev(n.c[1] if b else n.c[2], st)
        return self.join_states(out)

    def e_BinaryOperator(self, n, s):
        op = n.op
        if op == ",":
            out = []
            for _, st in self.ev(n.c[0], s):
                out += self.ev(n.c[1], st)
            return out
        if op == "=":
            out = []
            for v, s1 in self.ev(n.c[1], s):
                for loc, s2 in self.lval(n.c[0], s1):
                    self.on_write(s2, loc, v, n)
                    self.write(s2, loc, v, n)
                    out.append((v, s2))
            return out
        if op in ("&&", "||"):
            return [(int(b), st) for b, st in self.cond(n, s)]
        out = []
        for (a, b), st in ((tuple(vs), st) for vs, st in self.evs(n.c, s)):
            out.append((self.resolve(st, self.binop(st, op, a, b, n)), st))
        return out

    def on_write(self, s, loc, v, n):
        pass

    def cond(self, n, s):
        """-> list of (bool, state), with joins"""
        k = n.k
        if k == "ParenExpr":
            return self.cond(n.c[0], s)
        if k == "ImplicitCastExpr" and n.cast in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "NoOp"):
            sub = n.c[0]
            if sub.k in ("BinaryOperator", "ParenExpr", "UnaryOperator"):
                return self.cond(sub, s)
        if k == "UnaryOperator" and n.op == "!":
            return [(not b, st) for b, st in self.cond(n.c[0], s)]
        if k == "BinaryOperator" and n.op in ("&&", "||"):
            out = []
            for b, st in self.cond(n.c[0], s):
                if b == (n.op == "||"):
                    out.append((b, st))
                else:
                    out += self.cond(n.c[1], st)
            return self.join_states(out)
        out = []
        for v, st in self.ev(n, s):
            out += self.decide(st, v)
        return self.join_states(out)

    def binop(self, s, op, a, b, n):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return mk_cmp(op, a, b)
        ty = n.ty
        if isinstance(a, int) and isinstance(b, int):
            if op in ("/", "%") and b == 0:
                return ("op", op, a, b)
            if op == "/":
                q = abs(a) // abs(b)
                r = q if (a >= 0) == (b >= 0) else -q
            elif op == "%":
                q = abs(a) % abs(b)
                r = q if a >= 0 else -q
            else:
                r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
                     "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
            return wrap(r, ty)
        if op in ("+", "-"):
            for x, y, sw in ((a, b, 0), (b, a, 1)):
                if isinstance(x, tuple) and x and x[0] == "p" and not is_ptr(y):
                    if op == "-" and sw:
                        break
                    o = s.objs.get(x[1])
                    return ("p", x[1], self.idx_path(x[2], y if op == "+" else lmul(y, -1)))
                if isinstance(x, tuple) and x and x[0] == "s" and isinstance(y, int) and op == "+" and 0 <= y <= len(x[1]):
                    return ("s", x[1][y:])
            if is_ptr(a) and is_ptr(b) and op == "-" and a[0] == "p" == b[0] and a[1] == b[1]:
                return ladd(a[2][-1] if a[2] else 0, b[2][-1] if b[2] else 0, -1)
            if is_ptr(a) or is_ptr(b):
                return ("op", op, a, b)
            return ladd(a, b, 1 if op == "+" else -1)
        if op == "*":
            if isinstance(a, int):
                return lmul(b, a)
            if isinstance(b, int):
                return lmul(a, b)
        if op in ("*", "&", "|", "^") and order(a) > order(b):
            a, b = b, a
        return ("op", op, a, b)

    def e_CompoundAssignOperator(self, n, s):
        out = []
        op = n.op[:-1]
        for b, s1 in self.ev(n.c[1], s):
            for loc, s2 in self.lval(n.c[0], s1):
                a = self.resolve(s2, self.read(s2, loc, n.ty, n))
                v = self.binop(s2, op, a, b, n)
                self.on_write(s2, loc, v, n)
                self.write(s2, loc, v, n)
                out.append((v, s2))
        return out

    def e_UnaryOperator(self, n, s):
        op = n.op
        if op == "&":
            sub = n.c[0]
            while sub.k == "ParenExpr":
                sub = sub.c[0]
            if sub.k == "DeclRefExpr" and sub.ref[0] == "FunctionDecl":
                return self.ev(sub, s)
            return [(self.addr(loc), st) for loc, st in self.lval(sub, s)]
        if op == "*":
            sub = n.c[0]
            t = n.ty[1] or n.ty[0]
            if "(" in t and not t.endswith("*"):
                return self.ev(sub, s)
            return [(self.read(st, loc, n.ty, n), st) for loc, st in self.lval(n, s)]
        if op in ("++", "--"):
            out = []
            d = 1 if op == "++" else -1
            for loc, st in self.lval(n.c[0], s):
                a = self.resolve(st, self.read(st, loc, n.ty, n))
                if isinstance(a, tuple) and a[0] == "p":
                    v = ("p", a[1], self.idx_path(a[2], d))
                elif isinstance(a, tuple) and a[0] == "s":
                    v = ("s", a[1][1:]) if d > 0 else ("op", "+", a, d)
                else:
                    v = ladd(a, d)
                self.on_write(st, loc, v, n)
                self.write(st, loc, v, n)
                out.append((a if n.x.get("isPostfix") else v, st))
            return out
        if op == "!":
            return [(self.resolve(st, mk_not(v)), st) for v, st in self.ev(n.c[0], s)]
        out = []
        for v, st in self.ev(n.c[0], s):
            if op == "-":
                r = wrap(-v, n.ty) if isinstance(v, int) else lmul(v, -1)
            elif op == "~":
                r = wrap(~v, n.ty) if isinstance(v, int) else ("op", "~", v)
            elif op in ("+", "__extension__"):
                r = v
            else:
                raise Undecided("unary " + op)
            out.append((r, st))
        return out

    # ---------------------------------------------------------------- calls
    def e_CallExpr(self, n, s):
        out = []
        for vs, st in self.evs(n.c, s):
            out += self.call(vs[0], vs[1:], st, n)
        return out

    def call(self, fv, args, s, node):
        self.calls_seen += 1
        if isinstance(fv, tuple) and fv and fv[0] == "fn":
            name, tu = fv[1], fv[2]
            SITES.add((node.file, node.line, name))
            m = self.models.get(name)
            if m is not None:
                r = m(self, s, args, node)
                if r is not None:
                    return r
            fn = self.P.func(tu, name)
            if fn is not None and name not in self.default_opaque:
                depth = sum(1 for f in self.stack if f.fn is fn)
                if depth <= self.maxrec:
                    return self.inline(fn, args, s, node)
                return self.opaque(name, args, s, node)
            if fn is None:
                self.unknown_ext.add(name)
            return self.opaque(name, args, s, node)
        if isinstance(fv, int):
            self.finding(s, "null-deref", node, "call through a null function pointer")
            return self.dead(s, "null-call", node)
        return self.opaque(("icall", strip(fv)), args, s, node)

    def opaque(self, name, args, s, node):
        n = s.fresh(("call", name))
        s.event("call", name, tuple(self.snap(s, a) for a in args), getattr(node, "line", 0))
        ty = node.ty if node is not None else None
        t = ("call", name, n)
        if ty:
            self.termty.setdefault(t, ty)
        return [(t, s)]

    def snap(self, s, v):
        return strip(v) if isinstance(v, tuple) else v

    def inline(self, fn, args, s, node):
        if len(self.stack) > 120:
            raise Undecided("call depth")
        self.visited.add((fn.x["tu"], fn.name))
        if len(self.stack) == 1 and not self.dry:
            e = (fn.name, fn.file, fn.line)
            if e not in self.entry_callees:
                self.entry_callees.append(e)
        params = [p for p in fn.c if p is not None and p.k == "ParmVarDecl"]
        self.frame_no += 1
        fr = Frame()
        fr.fn, fr.id, fr.tu, fr.name = fn, self.frame_no, fn.x["tu"], fn.name
        fr.va = tuple(args[len(params):])
        for p, a in zip(params, args):
            oid = ("L", fr.id, p.x["id"])
            o = Obj("local", p.ty)
            s.put(oid, o)
            self.write(s, (oid, ()), a)
        self.stack.append(fr)
        try:
            rs = self.ex(fn.c[-1], s)
        finally:
            self.stack.pop()
        out = []
        for oc, st in rs:
            v = oc[1] if isinstance(oc, tuple) else 0
            st.drop([o for o in st.objs if o[0] == "L" and o[1] == fr.id])
            st.cnt.pop(("va", fr.id), None)
            out.append((v, st))
        if len(out) > 1:
            out = self.join_states(out)
        if len(out) > self.max_states:
            raise Budget("too many abstract states in " + fn.name)
        return out

    # ---------------------------------------------------------------- statements
    def ex(self, n, s):
        """-> list of (outcome, state)"""
        if n is None:
            return [(NORMAL, s)]
        self.tick()
        f = getattr(self, "s_" + n.k, None)
        if f is not None:
            return f(n, s)
        return [(NORMAL, st) for _, st in self.ev(n, s)]

    def seq(self, stmts, s):
        rs = [(NORMAL, s)]
        done = []
        for c in stmts:
            nxt = []
            for oc, st in rs:
                if oc is NORMAL:
                    nxt += self.ex(c, st)
                else:
                    done.append((oc, st))
            nn = [x for x in nxt if x[0] is NORMAL]
            done += [x for x in nxt if x[0] is not NORMAL]
            rs = self.join_states(nn) if len(nn) > 1 else nn
            if len(rs) + len(done) > self.max_states:
                raise Budget("too many abstract states")
            if not rs:
                break
        return done + rs

    def s_CompoundStmt(self, n, s):
        return self.seq(n.c, s)

    def s_NullStmt(self, n, s):
        return [(NORMAL, s)]

    def s_DeclStmt(self, n, s):
        rs = [s]
        for d in n.c:
            if d is None or d.k != "VarDecl":
                continue
            nr = []
            for st in rs:
                fr = self.stack[-1]
                oid = ("L", fr.id, d.x["id"])
                if d.x.get("storageClass") == "static":
                    goid = ("L", fr.id, d.x["id"])
                    o = Obj("glob", d.ty)
                    st.put(goid, o)
                    if d.x.get("init"):
                        nr += self.init_obj(st, goid, (), d.c[-1], d.ty)
                    else:
                        nr.append(st)
                    continue
                t = (d.ty[1] or d.ty[0])
                isbuf = t.startswith(("char[", "char [")) 
                o = Obj("buf" if isbuf else "local", d.ty, ("",) if isbuf else None)
                if isbuf:
                    o.x = ()
                st.put(oid, o)
                if d.x.get("init"):
                    nr += self.init_obj(st, oid, (), d.c[-1], d.ty)
                else:
                    nr.append(st)
            rs = nr
        return [(NORMAL, st) for st in rs]

    def init_obj(self, s, oid, path, e, ty):
        """initialise storage; -> list of states"""
        if e is None:
            return [s]
        if e.k == "InitListExpr":
            t = (e.ty[1] or e.ty[0])
            rs = [s]
            o = s.wobj(oid)
            if t.endswith("]"):
                if o.kind == "buf":
                    txt = []
                    for i, c in enumerate(e.c):
                        pass
                    o.x = ()
                    if not e.c or e.x.get("array_filler"):
                        return [s]
                for i, c in enumerate(e.c):
                    nr = []
                    for st in rs:
                        nr += self.init_obj(st, oid, path + (i,), c, None)
                    rs = nr
                for st in rs:
                    o = st.wobj(oid)
                    if o.kind == "local":
                        o.kind = "zero"
                return rs
            rec = t.replace("struct ", "").strip()
            fields = self.P.records.get(rec, ([], None))[0]
            for (fname, fty), c in zip(fields, e.c):
                nr = []
                for st in rs:
                    nr += self.init_obj(st, oid, path + (fname,), c, fty)
                rs = nr
            return rs
        if e.k == "ImplicitValueInitExpr":
            self.write(s, (oid, path), 0)
            return [s]
        if e.k == "StringLiteral":
            o = s.wobj(oid)
            if o.kind == "buf":
                o.x = norm_pieces((self.strlit(e),))
                return [s]
            if o.kind == "glob" and e.ty and (e.ty[1] or e.ty[0]).endswith("]"):
                t = self.strlit(e)
                for i, ch in enumerate(t):
                    o.f[path + (i,)] = ord(ch) if ord(ch) < 128 else ord(ch) - 256
                o.f[path + (len(t),)] = 0
                return [s]
        out = []
        for v, st in self.ev(e, s):
            self.write(st, (oid, path), v, e)
            out.append(st)
        return out

    def e_ImplicitValueInitExpr(self, n, s):
        return [(0, s)]

    def s_ReturnStmt(self, n, s):
        if not n.c:
            return [(("return", 0), s)]
        return [(("return", v), st) for v, st in self.ev(n.c[0], s)]

    def s_BreakStmt(self, n, s):
        return [(BREAK, s)]

    def s_ContinueStmt(self, n, s):
        return [(CONT, s)]

    def s_IfStmt(self, n, s):
        out = []
        for b, st in self.cond(n.c[0], s):
            if b:
                out += self.ex(n.c[1], st)
            elif len(n.c) > 2:
                out += self.ex(n.c[2], st)
            else:
                out.append((NORMAL, st))
        return self.join_states(out)

    def s_SwitchStmt(self, n, s):
        body = n.c[-1]
        items = []          # (labels, stmt)
        stmts = body.c if body.k == "CompoundStmt" else (body,)
        for st in stmts:
            labels = []
            while st is not None and st.k in ("CaseStmt", "DefaultStmt"):
                if st.k == "CaseStmt":
                    labels.append(st.c[0])
                    st = st.c[-1]
                else:
                    labels.append(None)
                    st = st.c[0]
            items.append((labels, st))
        out = []
        for v, s1 in self.ev(n.c[0], s):
            v = self.resolve(s1, v)
            groups = []     # (values, index)
            default = None
            allv = []
            for i, (labels, _) in enumerate(items):
                vals = []
                for l in labels:
                    if l is None:
                        default = i
                    else:
                        (lv, s1), = self.ev(l, s1)
                        vals.append(lv)
                if vals:
                    groups.append((vals, i))
                    allv += vals
            if isinstance(v, int):
                tgt = next((i for vals, i in groups if v in vals), default)
                starts = [(tgt, s1)]
            else:
                starts = []
                key, sg, k = lin_key(v)
                # groups falling on the same entry are one partition
                for vals, i in groups:
                    st = s1.fork()
                    if self.assume(st, key, Dom(frozenset((x - k) * sg for x in vals))):
                        starts.append((i, st))
                st = s1.fork()
                if self.assume(st, key, Dom(None, -INF, INF, frozenset((x - k) * sg for x in allv))):
                    starts.append((default, st))
            for tgt, st in starts:
                if tgt is None:
                    out.append((NORMAL, st))
                    continue
                for oc, s2 in self.seq([x for _, x in items[tgt:]], st):
                    out.append((NORMAL if oc is BREAK else oc, s2))
        return self.join_states(out)

    def s_CaseStmt(self, n, s):
        return self.ex(n.c[-1], s)

    def s_DefaultStmt(self, n, s):
        return self.ex(n.c[0], s)

    def s_LabelStmt(self, n, s):
        return self.ex(n.c[0], s)

    def s_GotoStmt(self, n, s):
        raise Undecided("goto")

    # ---------------------------------------------------------------- loops
    def s_WhileStmt(self, n, s):
        return self.loop(n, s, n.c[0], None, n.c[-1])

    def s_DoStmt(self, n, s):
        # body once, then a while loop
        out = []
        for oc, st in self.ex(n.c[0], s):
            if oc is BREAK:
                out.append((NORMAL, st))
            elif oc in (NORMAL, CONT):
                out += self.loop(n, st, n.c[1], None, n.c[0])
            else:
                out.append((oc, st))
        return out

    def s_ForStmt(self, n, s):
        init, var, cond, inc, body = n.c
        rs = self.ex(init, s) if init is not None else [(NORMAL, s)]
        out = []
        for oc, st in rs:
            out += self.loop(n, st, cond, inc, body)
        return out

    def loop(self, n, s, cond, inc, body):
        out = []
        work = [(s, 0)]
        while work:
            st, it = work.pop()
            if it > self.unroll:
                if self.on_limit is not None and self.on_limit(n, st):
                    self.dead(st, "endless", n)
                    continue
                raise Budget("loop unrolling at %r" % n)
            # decided by constants?
            probe = self.probe(cond, st) if not self.force_unroll else True
            if probe is None:
                out += self.sym_loop(n, st, cond, inc, body)
                continue
            conds = self.cond(cond, st) if cond is not None else [(True, st)]
            for b, s1 in conds:
                if not b:
                    out.append((NORMAL, s1))
                    continue
                for oc, s2 in self.join_states(self.ex(body, s1)):
                    if oc is BREAK:
                        out.append((NORMAL, s2))
                    elif oc in (NORMAL, CONT):
                        if inc is not None:
                            for _, s3 in self.ev(inc, s2):
                                work.append((s3, it + 1))
                        else:
                            work.append((s2, it + 1))
                    else:
                        out.append((oc, s2))
            if len(work) + len(out) > self.max_states:
                raise Budget("loop states")
        return self.join_states(out)

    def probe(self, cond, s):
        """truth of the loop condition if the same on all paths from s, else None"""
        if cond is None:
            return None if not self.unroll_forever else True
        self.dry += 1
        keep = len(self.terminated)
        try:
            rs = self.cond(cond, s.fork())
        finally:
            self.dry -= 1
            del self.terminated[keep:]
        bs = {b for b, _ in rs}
        return bs.pop() if len(bs) == 1 else None

    unroll_forever = False

    def diff_locs(self, s0, s1):
        """locations of s0 whose content differs in s1 -> dict (oid, path|VEC) -> new value"""
        ch = {}
        for oid, o in s0.objs.items():
            o1 = s1.objs.get(oid)
            if o1 is o or o1 is None:
                continue
            if o.kind in ("vec", "map", "str", "buf", "opq") and o.x != o1.x:
                ch[(oid, "#x")] = o1.x
            for p in set(o.f) | set(o1.f):
                a = o.f.get(p, None)
                b = o1.f.get(p, None)
                if a is None and o.kind == "sym":
                    t = o.x
                    for q in p:
                        t = ("fld", t, q) if isinstance(q, str) else ("idx", t, q)
                    a = t
                if a != b and (a is None or b is None or strip_ne(a, b)):
                    ch[(oid, p)] = b
            if o1.freed and not o.freed:
                ch[(oid, "#freed")] = True
        return ch

    def sym_loop(self, n, s, cond, inc, body):
        self.loop_no += 1
        L = s.fresh("loop")
        base = s.fork()
        # --- 1. which locations can one iteration change?
        steps = {}
        widened = {}
        for rnd in range(6):
            self.dry += 1
            keep = len(self.terminated)
            try:
                st = base.fork()
                self.havoc(st, base, widened, L, steps)
                ends = []
                conds = self.cond(cond, st.fork()) if cond is not None else [(True, st.fork())]
                for b, s1 in conds:
                    if not b:
                        continue
                    for oc, s2 in self.ex(body, s1):
                        if oc in (NORMAL, CONT):
                            ends += [x for _, x in self.ev(inc, s2)] if inc is not None else [s2]
            finally:
                self.dry -= 1
                del self.terminated[keep:]
            new = False
            cand = {}
            for e in ends:
                for loc, v in self.diff_locs(st, e).items():
                    cand.setdefault(loc, []).append((e, v))
            for loc, lst in cand.items():
                if loc[1] == "#freed":
                    continue
                start = self.locval(st, loc)
                stp = None
                if loc[1] != "#x" and start is not None:
                    ds = set()
                    for e in ends:
                        v = self.locval(e, loc)
                        d = None if v is None or is_ptr(v) != is_ptr(start) or (isinstance(v, tuple) and v[0] == "undef") \
                            else self.delta(start, v)
                        ds.add(d)
                    if len(ds) == 1 and None not in ds:
                        stp = ds.pop()
                if loc not in widened:
                    widened[loc] = True
                    steps[loc] = stp
                    new = True
                elif steps.get(loc) is not None and stp != steps[loc]:
                    steps[loc] = None
                    new = True
            # a counter must really advance by its step
            for loc in list(steps):
                if steps[loc] is not None:
                    start = self.locval(st, loc)
                    for e in ends:
                        v = self.locval(e, loc)
                        if v is None or self.delta(start, v) != steps[loc]:
                            if widened.get(loc) and rnd > 0:
                                steps[loc] = None
                                new = True
                                break
            if not new:
                break
        else:
            raise Undecided("loop does not stabilise at %r" % n)
        # --- 2. one generic iteration
        st = base.fork()
        self.havoc(st, base, widened, L, steps)
        self.loop_info[(L, n.file, n.line)] = (len(widened), {k: v for k, v in steps.items() if v is not None})
        ev0 = st.ev
        conds = self.cond(cond, st.fork()) if cond is not None else [(True, st.fork())]
        out = []
        alts = []
        for b, s1 in conds:
            if not b:
                continue
            ev1 = s1.ev
            for oc, s2 in self.ex(body, s1):
                if oc in (NORMAL, CONT):
                    for s3 in ([x for _, x in self.ev(inc, s2)] if inc is not None else [s2]):
                        alts.append(self.iter_summary(st, s3, L, ev0))
                        self.on_iteration_end(n, base, st, s3, L)
                elif oc is BREAK:
                    s2.event("loop-exit", L, "break")
                    out.append((NORMAL, s2))
                else:
                    out.append((oc, s2))
        uniq = []
        for a in alts:
            if a not in uniq:
                uniq.append(a)
        alts = tuple(uniq)
        # --- 3. leaving through the condition
        if cond is not None:
            for b, s1 in conds if False else self.cond(cond, self._exit_state(base, widened, L, steps)):
                if b:
                    continue
                self.close_loop(s1, base, widened, L, alts)
                s1.event("loop", L, alts)
                out.append((NORMAL, s1))
        return self.join_states(out)

    def _exit_state(self, base, widened, L, steps):
        st = base.fork()
        self.havoc(st, base, widened, L, steps)
        return st

    def on_iteration_end(self, n, s0, st, s3, L):
        pass

    def delta(self, a, b):
        if isinstance(a, tuple) and a and a[0] == "p":
            if isinstance(b, tuple) and b and b[0] == "p" and a[1] == b[1] and a[2][:-1] == b[2][:-1] and a[2] and b[2]:
                d = ladd(b[2][-1], a[2][-1], -1)
                return d if isinstance(d, int) else None
            return None
        if is_ptr(a) or is_ptr(b):
            return None
        d = ladd(strip(b), strip(a), -1)
        return d if isinstance(d, int) else None

    def locval(self, s, loc):
        oid, p = loc
        o = s.objs.get(oid)
        if o is None:
            return None
        if p == "#x":
            return o.x
        if p in o.f:
            return o.f[p]
        if o.kind == "sym":
            t = o.x
            for q in p:
                t = ("fld", t, q) if isinstance(q, str) else ("idx", t, q)
            return t
        return None

    def havoc(self, s, base, widened, L, steps):
        it = ("it", L)
        for i, loc in enumerate(widened):
            oid, p = loc
            if oid not in s.objs:
                continue
            o = s.wobj(oid)
            if p == "#x":
                if o.kind == "vec":
                    o.x = base.objs[oid].x + (("grow", L, i),)
                elif o.kind in ("str", "buf"):
                    o.x = (base.objs[oid].x or ()) + (("grow", L, i),)
                else:
                    o.x = ("hv", L, i)
                continue
            v0 = self.locval(base, loc)
            if steps.get(loc) is not None and v0 is not None:
                if isinstance(v0, tuple) and v0[0] == "p":
                    o.f[p] = ("p", v0[1], self.idx_path(v0[2], lmul(it, steps[loc])))
                else:
                    o.f[p] = ladd(v0, lmul(it, steps[loc]))
            else:
                t = ("hv", L, i)
                if o.kind == "local" and o.ty:
                    self.termty.setdefault(t, o.ty)
                o.f[p] = t

    def iter_summary(self, st, s3, L, ev0):
        facts = tuple(sorted(((k, d) for k, d in s3.facts.items() if st.facts.get(k) != d), key=repr))
        grow = []
        for oid, o in st.objs.items():
            o1 = s3.objs.get(oid)
            if o1 is None or o1 is o or o.kind not in ("vec", "str", "buf"):
                continue
            if o.x != o1.x:
                if o1.x[:len(o.x)] == o.x:
                    grow.append((oid, tuple(self.freeze_piece(s3, p) for p in o1.x[len(o.x):])))
                else:
                    grow.append((oid, ("changed",)))
        return (facts, tuple(grow), tuple(s3.events(ev0)))

    def freeze_piece(self, s, p):
        if isinstance(p, tuple) and p and p[0] == "one":
            return ("one", freeze(self, s, p[1]))
        return p

    def close_loop(self, s, base, widened, L, alts):
        for i, loc in enumerate(widened):
            oid, p = loc
            if p == "#x" and oid in s.objs:
                o = s.wobj(oid)
                if o.kind in ("vec", "str", "buf"):
                    pre = base.objs[oid].x or ()
                    body = tuple((a[0], dict(a[1]).get(oid, ()), a[2]) for a in alts)
                    o.x = pre + (("loop", L, body),)


def strip_ne(a, b):
    return strip(a) != strip(b)


# ------------------------------------------------------------------ text
def norm_pieces(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def pieces_text(ps):
    if ps is None:
        return None
    if all(isinstance(p, str) for p in ps):
        return "".join(ps)
    return None


def glob_text(o):
    """text of a global character array that nothing has written to"""
    v = o.f.get(())
    if isinstance(v, tuple) and v[0] == "s":
        return v[1]
    out = []
    i = 0
    while (i,) in o.f:
        c = o.f[(i,)]
        if c == 0:
            return "".join(out)
        if not isinstance(c, int):
            return None
        out.append(chr(c & 255))
        i += 1
    return None


def text_of(E, s, v):
    """abstract content of a C string value -> tuple of pieces"""
    if isinstance(v, tuple):
        if v[0] == "s":
            return norm_pieces((v[1],))
        if v[0] == "p":
            if v[1][0] == "G" and E is not None:
                E.ensure(s, v[1])
            o = s.objs.get(v[1])
            if o is not None and o.kind == "glob" and o.x is None and o.f:
                t = glob_text(o)
                if t is not None and v[2] in ((), (0,)):
                    return norm_pieces((t,))
            if o is not None and o.kind in ("str", "buf"):
                if v[2] in ((), (0,)):
                    return o.x
                t = pieces_text(o.x)
                if t is not None and isinstance(v[2][-1], int):
                    return norm_pieces((t[v[2][-1]:],))
                return (("suffix", o.x, v[2][-1]),)
            if o is not None and o.kind == "cstr":
                i = v[2][-1] if v[2] else 0
                if isinstance(i, int):
                    return norm_pieces((o.x[i:],))
            if o is not None and o.kind in ("heap", "local", "zero"):
                # characters stored one by one
                chars = []
                i = 0
                pre = v[2][:-1] if v[2] and not isinstance(v[2][-1], str) else v[2]
                while pre + (i,) in o.f and i < 4096:
                    c = o.f[pre + (i,)]
                    if c == 0:
                        return norm_pieces(tuple(chars))
                    chars.append(chr(c & 255) if isinstance(c, int) else ("chr", strip(c)))
                    i += 1
                return (("text", v[1], tuple(sorted(o.f.items(), key=repr)), v[2]),)
        return (("str", strip(v)),)
    return (("str", v),)


# ------------------------------------------------------------------ freezing (canonical values)
def freeze(E, s, v, depth=0, seen=None):
    """store-independent canonical form of a value"""
    if isinstance(v, int):
        return v
    if not isinstance(v, tuple):
        return v
    if v[0] == "s":
        return ("text", (v[1],) if v[1] else ())
    if v[0] == "fn":
        return ("fn", v[1])
    if v[0] == "p":
        o = s.objs.get(v[1])
        if o is None:
            return ("dangling",)
        seen = seen or ()
        if v[1] in seen or depth > 24:
            return ("cyc",)
        seen = seen + (v[1],)
        if o.kind in ("str", "buf") and v[2] in ((), (0,)):
            return ("text", tuple(freeze_deep(E, s, p, depth + 1, seen) for p in o.x))
        if o.kind == "vec":
            return ("vec", tuple(freeze_vpiece(E, s, p, depth + 1, seen) for p in o.x))
        if o.kind == "map":
            return ("map", freeze_deep(E, s, o.x, depth + 1, seen))
        if o.kind == "opq":
            return ("opq", freeze_deep(E, s, o.x, depth + 1, seen))
        if v[1][0] == "G":
            return ("glob", v[1][2]) + v[2]
        n = len(v[2])
        fl = tuple(sorted(((p[n:], freeze(E, s, x, depth + 1, seen)) for p, x in o.f.items() if p[:n] == v[2]),
                          key=repr))
        if o.kind == "sym":
            return ("sym", strip(o.x), fl)
        return ("obj", o.ty if isinstance(o.ty, str) else None, fl)
    if v[0] == "cp":
        return freeze(E, s, v[2], depth, seen)
    oid = ("D", v)
    o = s.objs.get(oid)
    if o is not None and o.kind == "vec":
        if o.x == (("ext", v),):
            return strip(v)
        return ("vec", tuple(freeze_vpiece(E, s, p, depth + 1, (seen or ()) + (oid,)) for p in o.x))
    return strip(v)


def freeze_deep(E, s, x, depth, seen):
    if isinstance(x, tuple):
        if x and x[0] in ("p", "s", "fn", "cp"):
            return freeze(E, s, x, depth, seen)
        return tuple(freeze_deep(E, s, y, depth, seen) for y in x)
    return x


def freeze_vpiece(E, s, p, depth, seen):
    if p[0] == "one":
        return ("one", freeze(E, s, p[1], depth, seen))
    if p[0] == "ext":
        return ("ext", strip(p[1]))
    return freeze_deep(E, s, p, depth, seen)


def fields(fz):
    """frozen object -> dict of its fields"""
    if isinstance(fz, tuple) and fz and fz[0] in ("obj", "sym"):
        return {(p[0] if len(p) == 1 else p): v for p, v in fz[2]}
    return {}


def show(v, d=0):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    try:
        if k == "fld":
            return "%s.%s" % (show(v[1], d + 1), v[2])
        if k == "idx":
            return "%s[%s]" % (show(v[1], d + 1), show(v[2], d + 1))
        if k == "at":
            return "%s[%s]" % (show(v[1], d + 1), show(v[2], d + 1))
        if k == "size":
            return "size(%s)" % show(v[1], d + 1)
        if k == "lin":
            return "+".join(["%s*%s" % (c, show(t, d + 1)) if c != 1 else show(t, d + 1) for t, c in v[2]] +
                            ([str(v[1])] if v[1] else []))
        if k == "s":
            return repr(v[1])
        if k == "in":
            return v[1]
        if k == "cp":
            return show(v[2], d)
        if k == "call":
            return "%s()#%s" % (v[1], v[2])
        if k == "eq":
            return "%s==0" % show(v[1], d + 1)
        if k == "le":
            return "%s<=0" % show(v[1], d + 1)
        if k == "not":
            return "!(%s)" % show(v[1], d + 1)
        return "(%s)" % " ".join(show(x, d + 1) for x in v)
    except Exception:
        return repr(v)


from models import BASE_MODELS  # noqa: E402

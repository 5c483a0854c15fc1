"""P25: the containers are finite maps, sets and sequences that own their contents."""
import itertools
import os
from rules.back_common import *
from report import pmap

META = {"level": "other", "explanation":
        "The reachable abstract states of a map, a set and a vector (heap graphs up to renaming of blocks) are computed as a fixpoint of every public operation from the empty container, over small universes of keys whose "
        "hash values collide in every table size or fill it densely. In every state every lookup, iteration, copy and release is interpreted abstractly and compared with the finite map, set or sequence that the history stands for, "
        "together with who owns which block. Because the state set is closed under the operations the result holds for histories of any length over the universe.",
        "assumptions": ["keys are drawn from the listed universes; integer keys are smaller than 2^30 in magnitude", "an iteration ends before the container is changed"]}

VAL = 1000


class Bad(Exception):
    pass


class Node:
    __slots__ = ("s", "h", "m", "path")

    def __init__(self, s, h, m, path):
        self.s, self.h, self.m, self.path = s, h, m, path


class Base:
    """operations on one container; self.s is the current state"""

    def __init__(self):
        E = self.E = Engine(prog(), max_states=50)
        E.maxrec = 40
        E.force_unroll = True
        E.check_mem = True
        E.check_bounds = True
        for n in list(E.models):
            if E.models[n] in (models.generic_copy, models.generic_delete):
                E.models.pop(n)
        models.real_containers(E, True)
        self.lab = Lab(E, State())
        self.L0 = None

    @property
    def s(self):
        return self.lab.s

    @s.setter
    def s(self, v):
        self.lab.s = v

    def call(self, name, *a):
        self.E.steps = 0
        try:
            r = self.lab.call(name, *a)
        except Undecided:
            if not self.E.findings:
                raise
        if self.E.findings:
            f = self.E.findings[0]
            del self.E.findings[:]
            raise Bad("%s: %s %s:%s %s" % (name, f[0], os.path.basename(str(f[1])), f[2], f[4]))
        return r

    def obj(self, content):
        if isinstance(content, str):
            oid = self.E.new_heap(self.s, "heap", None, None, "text")
            o = self.s.wobj(oid)
            bs = content.encode("latin-1") + b"\0"
            o.f[("#size",)] = len(bs)
            for i, b in enumerate(bs):
                o.f[(i,)] = b if b < 128 else b - 256
            return ("p", oid, ())
        return self.call("new_integer", content)

    def content(self, p):
        if not (isinstance(p, tuple) and p[0] == "p" and p[1][0] == "H"):
            return None
        o = self.s.objs.get(p[1])
        if o is None or o.freed:
            return None
        if o.kind == "str":
            return interp.pieces_text(interp.text_of(self.E, self.s, p))
        if (0,) in o.f:
            out = ""
            i = 0
            while isinstance(o.f.get((i,)), int) and o.f[(i,)] != 0:
                out += chr(o.f[(i,)] & 255)
                i += 1
            if i or o.f[(0,)] == 0:
                return out
        for v in o.f.items():
            if v[0] == ():
                return v[1]
        return None

    def free_own(self, p):
        """the caller releases an object that it owns"""
        o = self.s.wobj(p[1])
        if o.freed:
            raise Bad("an object the caller owns was released")
        o.freed = True

    def live(self):
        return {k for k, o in self.s.objs.items() if k[0] == "H" and not o.freed}

    def tidy(self, roots):
        seen = reach(self.s, roots)
        self.s.drop([k for k, o in self.s.objs.items() if k[0] == "H" and o.freed and k not in seen])


def reach(s, roots):
    seen = {}
    todo = list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "p" and v[1] in s.objs and v[1][0] == "H" and v[1] not in seen:
            o = s.objs[v[1]]
            seen[v[1]] = 1
            if not o.freed:
                todo.extend(o.f.values())
    return seen


def canon(s, roots, mask=()):
    num, order = {}, []

    def ref(v):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "p" and v[1][0] == "H":
            if v[1] not in num:
                num[v[1]] = len(num)
                order.append(v[1])
            return ("#", num[v[1]], v[2])
        return v

    out = [tuple(ref(r) for r in roots)]
    i = 0
    while i < len(order):
        o = s.objs.get(order[i])
        if o is None or o.freed:
            out.append("freed")
        elif order[i] in mask:
            out.append("item")
        else:
            x = o.x
            out.append((o.kind, repr(x) if not isinstance(x, tuple) else tuple(map(repr, x)), tuple((k, ref(o.f[k])) for k in sorted(o.f, key=repr))))
        i += 1
    lost = sum(1 for k, o in s.objs.items() if k[0] == "H" and not o.freed and k not in num)
    return (tuple(out), lost)


def truth(v):
    if isinstance(v, int):
        return v != 0
    if isinstance(v, tuple) and v[0] in ("p", "s", "cp"):
        return True
    raise Undecided("result %s" % show(v))


# ---- maps and sets: the model is {key content: value pointer}
class Table(Base):
    def __init__(self, is_set, keys, extra):
        Base.__init__(self)
        self.set = is_set
        self.keys, self.extra = keys, extra
        self.t_key = ("p", global_oid("t_hashable_string" if isinstance(keys[0], str) else "t_hashable_integer"), ())
        self.n = "set" if is_set else "map"
        self.warm()

    def warm(self):
        h = self.new()
        self.call("delete_" + self.n, h)
        self.tidy([])

    def new(self):
        if self.set:
            return self.call("new_set", self.t_key)
        return self.call("new_map", self.t_key, ("p", global_oid("t_integer"), ()))

    def start(self):
        return Node(self.s, self.new(), {}, ()), None

    def roots(self, nd):
        return [nd.h] + [x for k in sorted(nd.m) for x in (nd.m[k],) if x is not None]

    def canon(self, nd):
        return canon(nd.s, self.roots(nd)), tuple(sorted(nd.m))

    def val(self, k):
        return VAL + self.keys.index(k)

    def ops(self, nd):
        for k in self.keys:
            yield ("add", k)
            yield ("remove", k)
        yield ("remove", self.extra)
        yield ("copy",)

    def apply(self, op, h, m):
        """-> handle, model"""
        m = dict(m)
        if op[0] == "add":
            k = self.obj(op[1])
            if self.set:
                self.call("set_add", h, k)
                m[op[1]] = None
            else:
                v = self.obj(self.val(op[1]))
                self.call("map_add", h, k, v)
                m[op[1]] = v
        elif op[0] == "remove":
            k = self.obj(op[1])
            self.call(self.n + "_remove", h, k)
            self.free_own(k)
            m.pop(op[1], None)
        elif op[0] == "copy":
            c = self.call(self.n + "_copy", h)
            before = set(m.values()) - {None}
            got = self.walk(c)
            self.call("delete_" + self.n, h)
            if sorted(got) != sorted(m):
                raise Bad("the copy holds the keys %s, not %s" % (sorted(got), sorted(m)))
            for k, v in got.items():
                if v in before:
                    raise Bad("the copy shares the value of key %r with the original" % (k,))
            h, m = c, got
        return h, m

    def walk(self, h, stop=None):
        """{key content: value pointer} by iteration"""
        got = {}
        it = self.call(self.n + "_iter_begin", h)
        n = 0
        while True:
            if truth(self.call(self.n + "_iter_end", it, h)):
                return got
            if stop is not None and n == stop:
                self.call(self.n + "_iter_exit", it)
                return got
            kp = self.call("set_iter_item" if self.set else "map_iter_key", it, h)
            k = self.content(kp)
            if k is None:
                raise Bad("the iteration gives something that is not a key in place")
            v = None if self.set else self.call("map_iter_value", it, h)
            if k in got:
                raise Bad("the iteration gives the key %r twice" % (k,))
            got[k] = v
            n += 1
            if n > 500:
                raise Bad("the iteration does not end")
            it = self.call(self.n + "_iter_next", it, h)

    def observe(self, h, m):
        for k in self.keys + [self.extra]:
            p = self.obj(k)
            c = truth(self.call(self.n + "_contains", h, p))
            if c != (k in m):
                raise Bad("%s_contains(%r) is %d" % (self.n, k, c))
            if not self.set:
                g = self.call("map_get", h, p)
                d = self.obj(77)
                e = self.call("map_get_with_default", h, p, d)
                if g != m.get(k, 0):
                    raise Bad("map_get(%r) does not give %s" % (k, "the value that was added last" if k in m else "nothing"))
                if e != m.get(k, d):
                    raise Bad("map_get_with_default(%r) does not give %s" % (k, "the value that was added last" if k in m else "the default"))
                if k in m and self.content(g) != self.val(k):
                    raise Bad("the value of %r is gone" % (k,))
                self.free_own(d)
            self.free_own(p)
        before = self.live()
        for stop in (None, 0, 1):
            got = self.walk(h, stop)
            if stop is None:
                if sorted(got) != sorted(m):
                    raise Bad("the iteration gives the keys %s, not %s" % (sorted(got), sorted(m)))
                if not self.set and got != m:
                    raise Bad("the iteration gives a wrong value")
            if self.live() != before:
                raise Bad("the iterator is not released")

    def finish(self, h):
        self.call("delete_" + self.n, h)

    def final(self, nd):
        """everything that is checked in a state without following it"""
        self.s = nd.s.fork()
        self.observe(nd.h, nd.m)
        after = Node(self.s, nd.h, nd.m, nd.path)
        changed = self.canon(after) != self.canon(nd)
        keep = self.s.fork()
        self.finish(nd.h)
        if self.live():
            raise Bad("releasing the %s leaves %d blocks, first made at %s" % (self.n, len(self.live()), sorted(str(self.s.objs[x].site) for x in self.live())[0]))
        # a copy and its original do not depend on each other
        self.s = nd.s.fork()
        c = self.call(self.n + "_copy", nd.h)
        got = self.walk(c)
        self.observe(c, got)
        self.observe(nd.h, nd.m)
        self.finish(c)
        self.observe(nd.h, nd.m)
        self.finish(nd.h)
        if self.live():
            raise Bad("releasing a %s and its copy leaves %d blocks" % (self.n, len(self.live())))
        return Node(keep, nd.h, nd.m, nd.path + (("look",),)) if changed else None


class Seq(Base):
    def __init__(self, maxlen):
        Base.__init__(self)
        self.maxlen = maxlen
        self.n = "vector"
        self.k = 100
        self.t = ("p", global_oid("t_integer"), ())
        h = self.new()
        self.call("delete_vector", h)
        self.tidy([])

    def new(self):
        return self.call("new_vector", self.t)

    def start(self):
        return Node(self.s, self.new(), [], ()), None

    def roots(self, nd):
        return [nd.h] + list(nd.m)

    def canon(self, nd):
        return canon(nd.s, self.roots(nd), {x[1] for x in nd.m})

    def item(self):
        self.k += 1
        return self.obj(self.k)

    def ops(self, nd):
        n = len(nd.m)
        if n < self.maxlen:
            yield ("push",)
            for i in range(n + 1):
                yield ("insert", i)
        if n:
            yield ("pop",)
        for i in range(-1, n + 2):
            yield ("set", i)
            yield ("erase", i)
        for i in range(0, self.maxlen + 1):
            yield ("fill", i)
        for i in range(0, self.maxlen - n + 1):
            yield ("extend", i)
        yield ("copy",)

    def apply(self, op, h, m):
        m = list(m)
        o = op[0]
        if o == "push":
            x = self.item()
            self.call("vector_push", h, x)
            m.append(x)
        elif o == "insert":
            x = self.item()
            self.call("vector_insert", h, op[1], x)
            m.insert(op[1], x)
        elif o == "pop":
            x = self.call("vector_pop", h)
            if x != m.pop():
                raise Bad("vector_pop does not give the last element")
            self.free_own(x)
        elif o == "set":
            x = self.item()
            r = truth(self.call("vector_set", h, op[1], x))
            inside = 0 <= op[1] < len(m)
            if r != inside:
                raise Bad("vector_set(%d) of %d elements returns %d" % (op[1], len(m), r))
            if inside:
                if not self.s.objs[m[op[1]][1]].freed:
                    raise Bad("vector_set does not release the element it replaces")
                m[op[1]] = x
            else:
                self.free_own(x)
        elif o == "erase":
            self.call("vector_erase", h, op[1])
            if 0 <= op[1] < len(m):
                del m[op[1]]
        elif o == "fill":
            x = self.item()
            c = self.content(x)
            self.call("vector_fill", h, op[1], x)
            if not self.s.objs[x[1]].freed:
                raise Bad("vector_fill does not release the element it copies")
            for i in range(len(m), op[1]):
                y = self.call("vector_at", h, i)
                if self.content(y) != c or y in m:
                    raise Bad("vector_fill(%d) of %d elements leaves element %d wrong" % (op[1], len(m), i))
                m.append(y)
        elif o == "extend":
            other = self.new()
            xs = [self.item() for _ in range(op[1])]
            for x in xs:
                self.call("vector_push", other, x)
            self.call("vector_extend", h, other)
            m += xs
            if self.call("vector_size", other) != 0:
                raise Bad("vector_extend leaves elements in the source")
            x = self.item()
            self.call("vector_push", other, x)
            if self.call("vector_at", other, 0) != x:
                raise Bad("the source of vector_extend cannot be used any more")
            self.call("delete_vector", other)
        elif o == "copy":
            c = self.call("vector_copy", h)
            got = self.walk(c)
            want = [self.content(x) for x in m]
            if [self.content(x) for x in got] != want or set(got) & set(m):
                raise Bad("the copy has other elements")
            self.call("delete_vector", h)
            h, m = c, got
        return h, m

    def walk(self, h):
        n = self.call("vector_size", h)
        if not isinstance(n, int) or n > 1000:
            raise Bad("vector_size is %s" % show(n))
        return [self.call("vector_at", h, i) for i in range(n)]

    def observe(self, h, m):
        got = self.walk(h)
        if got != m:
            raise Bad("the vector has %d elements, %s" % (len(got), "not %d" % len(m) if len(m) != len(got) else "in another order or with another content"))
        for i in (-2, -1, len(m), len(m) + 1, 1 << 20):
            if self.call("vector_at", h, i) != 0:
                raise Bad("vector_at(%d) of %d elements gives something" % (i, len(m)))
        for x in m:
            if self.content(x) is None:
                raise Bad("an element was released")

    def final(self, nd):
        self.s = nd.s.fork()
        self.observe(nd.h, nd.m)
        after = Node(self.s, nd.h, nd.m, nd.path)
        changed = self.canon(after) != self.canon(nd)
        keep = self.s.fork()
        self.call("delete_vector", nd.h)
        if self.live():
            raise Bad("releasing the vector leaves %d blocks" % len(self.live()))
        self.s = nd.s.fork()
        c = self.call("vector_copy", nd.h)
        got = self.walk(c)
        self.call("vector_push", c, self.item())
        self.observe(nd.h, nd.m)
        self.call("delete_vector", c)
        self.observe(nd.h, nd.m)
        for x in got:
            if x in nd.m:
                raise Bad("the copy shares an element")
        self.call("delete_vector", nd.h)
        if self.live():
            raise Bad("releasing a vector and its copy leaves %d blocks" % len(self.live()))
        return Node(keep, nd.h, nd.m, nd.path + (("look",),)) if changed else None


def steps(path):
    return ", ".join(" ".join(map(str, o)) for o in path[-8:]) or "empty"


def explore(R, name, rule, A, limit):
    """least fixpoint of all operations"""
    first, _ = A.start()
    seen = {A.canon(first)}
    todo = [first]
    trans = 0
    bad = None
    try:
        while todo:
            nxt = []
            for nd in todo:
                at = nd.path
                more = A.final(nd)
                new = [more] if more else []
                for op in A.ops(nd):
                    at = nd.path + (op,)
                    A.s = nd.s.fork()
                    h, m = A.apply(op, nd.h, nd.m)
                    trans += 1
                    x = Node(A.s, h, m, at)
                    A.tidy(A.roots(x))
                    new.append(x)
                for x in new:
                    c = A.canon(x)
                    if c not in seen:
                        seen.add(c)
                        nxt.append(x)
                if len(seen) > limit:
                    break
            todo = nxt
            if len(seen) > limit:
                R.saw(A.E.visited)
                R.unk(rule, name, "more than %d states" % limit)
                return None, seen
    except Bad as e:
        bad = "after %s: %s" % (steps(at), e)
    except Undecided as e:
        R.saw(A.E.visited)
        R.unk(rule, name, "after %s: %s" % (steps(at), e))
        return None, seen
    R.saw(A.E.visited)
    if bad:
        R.bad(rule, name, A.n, bad)
    else:
        R.ok(rule, "%s: %d states, %d transitions" % (name, len(seen), trans))
        R.notes.append("%s %s: fixpoint of %d states and %d transitions" % (rule, name, len(seen), trans))
    return trans, seen


# ---- pairs of sets
def algebra(R, name, rule, A, states, per):
    """set operations on representatives of every pair of contents"""
    by = {}
    for nd in states:
        by.setdefault(tuple(sorted(nd.m)), []).append(nd)
    reps = [x for k in sorted(by) for x in by[k][:per]]
    n = 0
    for a in reps:
        A.s = State()
        A.warm()
        base = A.s.fork()
        for b in reps:
            A.s = base.fork()
            hs = []
            for nd in (a, b):
                h, m = A.new(), {}
                for op in nd.path:
                    h, m = A.apply(op, h, m)
                hs.append((h, m))
            (h1, m1), (h2, m2) = hs
            x, y = set(m1), set(m2)
            try:
                for fn, want in (("set_union", x | y), ("set_intersection", x & y), ("set_difference", x - y)):
                    r = A.call(fn, h1, h2)
                    got = A.walk(r)
                    if set(got) != want:
                        raise Bad("%s of %s and %s is %s" % (fn, sorted(x), sorted(y), sorted(got)))
                    A.observe(r, {k: None for k in want})
                    own = reach(A.s, [r])
                    if set(own) & set(reach(A.s, [h1, h2])):
                        raise Bad("%s of %s and %s shares storage" % (fn, sorted(x), sorted(y)))
                    A.call("delete_set", r)
                for fn, want in (("set_issubset", y <= x), ("set_equals", x == y)):
                    if truth(A.call(fn, h1, h2)) != want:
                        raise Bad("%s of %s and %s is %d" % (fn, sorted(x), sorted(y), not want))
                A.observe(h1, m1)
                A.observe(h2, m2)
                A.call("delete_set", h1)
                A.call("delete_set", h2)
                if A.live():
                    raise Bad("operations on %s and %s leave %d blocks" % (sorted(x), sorted(y), len(A.live())))
                n += 1
            except Bad as e:
                R.bad(rule, name, "set", str(e))
                return
            except Undecided as e:
                R.unk(rule, name, e)
                return
    R.ok(rule, "%s: %d pairs" % (name, n))
    R.saw(A.E.visited)


def chain(R, name, rule, A, ops, every):
    """one long history through all table sizes"""
    nd, _ = A.start()
    done = []
    try:
        for i, op in enumerate(ops):
            done.append(op)
            h, m = A.apply(op, nd.h, nd.m)
            nd = Node(A.s, h, m, tuple(done))
            A.tidy(A.roots(nd))
            if i % every == 0 or i + 1 == len(ops):
                A.s = nd.s.fork()
                A.observe(nd.h, nd.m)
                A.final(nd)
                A.s = nd.s
        R.ok(rule, "%s: %d operations" % (name, len(ops)))
    except Bad as e:
        R.bad(rule, name, A.n, "after %d operations (%s): %s" % (len(done), steps(done), e))
    except Undecided as e:
        R.unk(rule, name, "after %d operations: %s" % (len(done), e))
    R.saw(A.E.visited)


C = 3465           # a multiple of every small table size
STR = ["ab", "ba", "", "\xff\xfe" * 9]
INTS = {"one": [0], "two colliding": [0, C], "three colliding": [0, C, 2 * C], "negative": [-C, 0, C], "neighbours": [0, 1, 2, 3], "mixed": [0, C, 1, -1]}
DEEP = {"at the end of the table": [3, 3 + C, 7, 7 + C], "four colliding": [0, C, 2 * C, 3 * C], "five": [0, C, 1, 2, 4], "five spread": [0, 7, 14, 1, 3], "six": [0, 1, 2, 3, 4, 5]}


def universes(tier):
    for n, ks in INTS.items():
        yield "integers " + n, ks, 9
    yield "strings", STR[:3], "abc"
    yield "long strings", [STR[0], STR[1], STR[3]], "\xfe\xff"
    for n, ks in DEEP.items():
        if tier == "thorough" or n in ("at the end of the table", "four colliding", "five"):
            yield "integers " + n, ks, 9
    if tier == "thorough":
        yield "four strings", STR, "b"
        yield "integers seven", [0, 1, 2, 3, 4, 5, 6], 9


def grow(keys):
    ops = [("add", k) for k in keys] + [("copy",)] + [("add", k) for k in keys[::3]]
    ops += [("remove", k) for k in keys[::2]] + [("add", k) for k in keys[::4]] + [("copy",)]
    ops += [("remove", k) for k in reversed(keys)]
    return ops + [("add", k) for k in keys[:5]]


def words(n):
    out = [""]
    while len(out) < n:
        out += [w + c for w in out[-6:] for c in "xyz"]
    return list(dict.fromkeys(out))[:n]


def task(R, kind, name, arg, extra, tier):
    if kind in ("map", "set"):
        A = Table(kind == "set", arg, extra)
        explore(R, name, kind, A, 8000 if tier == "thorough" else 900)
    elif kind == "algebra":
        A = Table(True, arg, extra)
        seen = reachable(A)
        algebra(R, name, kind, A, seen, 3 if tier == "thorough" else 2)
    elif kind == "vector":
        explore(R, name, kind, Seq(arg), 20000)
    elif kind == "growth":
        if name.startswith("vector"):
            ops = [("push",)] * arg + [("copy",)] + [("insert", i) for i in range(0, arg, 5)] + [("erase", i) for i in range(0, arg, 3)] + [("fill", 2 * arg), ("extend", 9)] + [("pop",)] * (2 * arg) + [("push",)] * 3
            chain(R, name, kind, Seq(arg), ops, 8)
        else:
            A = Table(name.startswith("set"), arg, extra)
            chain(R, name, kind, A, grow(arg), 8)


def reachable(A):
    """states without checks, for the pairs"""
    first, _ = A.start()
    seen = {A.canon(first): first}
    todo = [first]
    while todo and len(seen) < 600:
        nxt = []
        for nd in todo:
            for op in A.ops(nd):
                A.s = nd.s.fork()
                try:
                    h, m = A.apply(op, nd.h, nd.m)
                except (Bad, Undecided):
                    continue
                x = Node(A.s, h, m, nd.path + (op,))
                A.tidy(A.roots(x))
                c = A.canon(x)
                if c not in seen:
                    seen[c] = x
                    nxt.append(x)
        todo = nxt
    return list(seen.values())


def run(R, tier):
    need("map_add")
    need("set_union")
    need("vector_push")
    t = []
    for n, ks, ex in universes(tier):
        t.append(("map", n, ks, ex, tier))
        t.append(("set", n, ks, ex, tier))
        if len(ks) <= (4 if tier == "thorough" else 3):
            t.append(("algebra", n, ks, ex, tier))
    t.append(("vector", "up to 5" if tier == "thorough" else "up to 4", 5 if tier == "thorough" else 4, None, tier))
    m = 60 if tier == "thorough" else 36
    for k in ("map", "set"):
        t.append(("growth", k + " of integers", list(range(-m // 2, m // 2)), 99, tier))
        t.append(("growth", k + " of colliding integers", [31 * 63 * i for i in range(m // 2)], 99, tier))
        t.append(("growth", k + " of strings", words(m), "nothing", tier))
    t.append(("growth", "vector", m, None, tier))
    t.sort(key=lambda x: -len(x[2]) if isinstance(x[2], list) else -5)
    pmap(R, task, t, single=True)

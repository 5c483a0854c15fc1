"""Shared helpers for the rule modules: abstract inputs, root analyses, canonical results."""
import front, interp, models
from interp import (Engine, State, Obj, Dom, freeze, fields, show, strip, Undecided, Budget, INF)

_P = None


def prog():
    global _P
    if _P is None:
        _P = front.load()
        models.install_generic(_P)
    return _P


def ev(name):
    return prog().enumval[name]


def ename(enum, value):
    for n, v in prog().enumtypes[enum]:
        if v == value:
            return n
    return value


class Broken(Exception):
    """the analysis cannot find what it must analyse"""


def need(name, tu=None):
    f = prog().func(tu, name)
    if f is None:
        raise Broken("anchor function %s not found" % name)
    return f


class Lab:
    """builds abstract inputs in a state"""

    def __init__(self, E, s):
        self.E, self.s = E, s

    def call(self, name, *args):
        rs = self.E.call(("fn", name, None), list(args), self.s, FAKE)
        if len(rs) != 1:
            raise Undecided("%s is not a single-valued constructor" % name)
        v, self.s = rs[0]
        return v

    def sym(self, name, **f):
        t = ("in", name)
        oid = ("D", t)
        if oid not in self.s.objs:
            self.s.put(oid, Obj("sym", None, t))
        for k, v in f.items():
            self.s.wobj(oid).f[(k,)] = v
        return t

    def vec(self, items, t_item=None):
        self.E.heap_no += 1
        oid = ("H", self.E.heap_no)
        o = Obj("vec", None, tuple(("one", i) for i in items))
        if t_item:
            o.f[("t_item",)] = ("p", ("G", None, t_item), ())
        self.s.put(oid, o)
        return ("p", oid, ())

    def text(self, t):
        self.E.heap_no += 1
        oid = ("H", self.E.heap_no)
        self.s.put(oid, Obj("str", None, (t,) if t else ()))
        return ("p", oid, ())

    # data types --------------------------------------------------------
    def dt(self, d):
        """spec -> DType pointer.  'void','char','int','uint','long','ulong','llong','ullong','enum',
        ('ptr',d) ('arr',d,n) ('struct',name,nbytes) ('fn',[params],ret) ('sstruct',[(name,d)])"""
        base = {"char": "DTYPE_CHAR", "int": "DTYPE_INT", "uint": "DTYPE_UNSIGNED_INT", "long": "DTYPE_LONG",
                "ulong": "DTYPE_UNSIGNED_LONG", "llong": "DTYPE_LONGLONG", "ullong": "DTYPE_UNSIGNED_LONGLONG"}
        if d == "void":
            return self.call("new_void_dtype")
        if isinstance(d, str) and d in base:
            return self.call("new_integer_dtype", ev(base[d]))
        if d == "enum":
            return self.call("new_named_enum_dtype", self.text("E"))
        if d[0] == "enum":
            return self.call("new_named_enum_dtype", self.text(d[1]))
        if d[0] == "ptr":
            return self.call("new_pointer_dtype", self.dt(d[1]))
        if d[0] == "arr":
            return self.call("new_array_dtype", self.dt(d[1]), d[2])
        if d[0] == "struct":
            return self.call("new_named_struct_dtype", self.text(d[1]), d[2], d[3] if len(d) > 3 else 4)
        if d[0] == "sstruct":
            ms = [self.call("new_dstructmember", self.text(n), self.dt(x)) for n, x in d[1]]
            return self.call("new_unnamed_struct_dtype", self.vec(ms, "t_dstructmember"))
        if d[0] == "fn":
            ps = []
            for i, p in enumerate(d[1]):
                ps.append(self.call("new_named_dparam", self.text("p%d" % i), self.dt(p)))
            return self.call("new_function_dtype", self.vec(ps, "t_dparam"), self.dt(d[2]))
        raise ValueError(d)


class _Fake:
    file = "<root>"
    line = 0
    ty = ("void *", "void *")
    k = "root"
    c = ()


FAKE = _Fake()


def dt_show(fz):
    """frozen DType -> spec form"""
    f = fields(fz)
    if "type" not in f:
        return fz
    n = ename("DTypeType", f["type"])
    m = {"DTYPE_VOID": "void", "DTYPE_CHAR": "char", "DTYPE_INT": "int", "DTYPE_UNSIGNED_INT": "uint",
         "DTYPE_LONG": "long", "DTYPE_UNSIGNED_LONG": "ulong", "DTYPE_LONGLONG": "llong",
         "DTYPE_UNSIGNED_LONGLONG": "ullong"}
    if n in m:
        return m[n]
    if n == "DTYPE_ENUM":
        return ("enum", txt(fields(f["denum"]).get("name")))
    if n == "DTYPE_POINTER":
        return ("ptr", dt_show(fields(f["dpointer"])["to_dtype"]))
    if n == "DTYPE_ARRAY":
        a = fields(f["darray"])
        return ("arr", dt_show(a["of_dtype"]), a["size"])
    if n == "DTYPE_STRUCT":
        a = fields(f["dstruct"])
        return ("struct", txt(a.get("name")), a.get("nbytes"))
    if n == "DTYPE_FUNCTION":
        a = fields(f["dfunction"])
        ps = a["params"]
        pl = tuple(dt_show(fields(p[1])["dtype"]) for p in ps[1]) if ps and ps[0] == "vec" else ps
        return ("fn", pl, dt_show(a["return_dtype"]))
    return (n,)


def txt(fz):
    if isinstance(fz, tuple) and fz and fz[0] == "text":
        t = interp.pieces_text(fz[1])
        return t if t is not None else fz[1]
    return fz


def global_oid(name):
    for tu, n in prog().gvars:
        if n == name:
            return ("G", tu, n)
    return None


def global_text(name, i):
    """text of an element of a global table of strings; None if there is no such element"""
    oid = global_oid(name)
    if oid is None:
        return None
    E, s = Engine(prog()), State()
    o = E.ensure(s, oid)
    v = o.f.get((i,), o.f.get((i, 0)))
    if isinstance(v, tuple) and v[0] == "s":
        return v[1]
    if isinstance(v, tuple) and v[0] == "p":
        x = s.objs.get(v[1])
        if x is not None and x.kind == "cstr":
            return x.x
    return None

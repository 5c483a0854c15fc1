"""Analysis of the semantic stage: which typed tree (or which failure) does each construct resolve to?"""
from lab import *
import interp

ENTRIES = ("resolve_expr", "resolve_stmt", "resolve_decl")


class Fail:
    """planned outcome of an opaque part: it is rejected"""

    def __init__(self, n=1):
        self.n = n


class Ok:
    """planned outcome of an opaque part: a typed tree of that kind and type"""

    def __init__(self, kind, dtype, **extra):
        self.kind, self.dtype, self.extra = kind, dtype, extra


class Res:
    """one root analysis of a resolver entry"""

    def __init__(self, root, max_states=3000, depth=0):
        self.P = prog()
        need(root)
        self.root = root
        self.E = Engine(self.P, max_states=max_states)
        self.E.check_mem = True
        self.E.maxrec = 30
        self.E.nonnull = lambda t: t[0] in ("in", "cp", "leafname")
        self.lab = Lab(self.E, State())
        L = self.lab
        self.entered = 0
        self.plan = {}
        self.order = []
        self.on_child = None
        self.inline_kinds = set()
        for e in ENTRIES:
            self.E.models[e] = (lambda E, s, a, node, e=e: self.model(e, E, s, a, node))
        self.res = L.call("new_resolver", 0)
        o = self.obj()
        o.f[("trans_unit_srt",)] = L.call("new_srt", ev("SRT_TRAS_UNIT"), 0)
        o.f[("scope_srt",)] = L.call("new_srt", ev("SRT_CMPD_STMT"), 0)

    def obj(self, s=None):
        return (s or self.lab.s).wobj(self.res[1])

    # ---- inputs
    def ast(self, name, kind, children=(), **extra):
        f = dict(type=ev(kind), children=self.lab.vec(children, "t_ast"), ident_name=0, iliteral=0, sliteral=0)
        f.update(extra)
        return self.lab.sym(name, **f)

    def part(self, name, outcome, kind="AST_CALL_EXPR"):
        """a part of the program whose own resolution is opaque"""
        self.plan[name] = outcome
        return self.ast(name, kind)

    def ident(self, name, kind="AST_IDENT_DECLOR", text="v"):
        return self.ast(name, kind, (), ident_name=self.lab.text(text))

    def type_name(self, d, node="tn"):
        """syntax of a type name; d: base name or ('ptr', ..) ('arr', .., n)"""
        base = {"void": ["VOID"], "char": ["CHAR"], "int": ["INT"], "uint": ["UNSIGNED"], "long": ["LONG"],
                "ulong": ["UNSIGNED", "LONG"], "llong": ["LONG", "LONG"], "ullong": ["UNSIGNED", "LONG", "LONG"]}
        dec, d0 = self.declor(d, node, self.ast(node + ".abs", "AST_ABS_DECLOR"))
        sp = self.specs(d0, node)
        return self.ast(node, "AST_TYPE_NAME", [sp, dec])

    BASE = {"void": ["VOID"], "char": ["CHAR"], "int": ["INT"], "uint": ["UNSIGNED"], "long": ["LONG"],
            "ulong": ["UNSIGNED", "LONG"], "llong": ["LONG", "LONG"], "ullong": ["UNSIGNED", "LONG", "LONG"]}

    def specs(self, d0, node, kind="AST_SPEC_QUAL_LIST", extra=()):
        if isinstance(d0, tuple) and d0[0] == "struct":
            nm = self.ast(node + ".sn", "AST_STRUCT_NAME", (), ident_name=self.lab.text(d0[1]))
            return self.ast(node + ".sp", kind, list(extra) + [self.ast(node + ".st", "AST_TYPE_STRUCT", [nm])])
        return self.ast(node + ".sp", kind, list(extra) + [self.ast("%s.t%d" % (node, i), "AST_TYPE_" + x)
                                                           for i, x in enumerate(self.BASE[d0])])

    def declor(self, d, node, inner):
        """declarator syntax ending in the terminal `inner` -> (ast, base type); the outermost derivation is the outermost node"""
        if not (isinstance(d, tuple) and d[0] in ("ptr", "arr", "fn")):
            return inner, d
        node += "."
        if d[0] == "ptr":
            x, base = self.declor(d[1], node, inner)
            return self.ast(node + "p", "AST_PTR_DECLOR", [x]), base
        if d[0] == "arr":
            x, base = self.declor(d[1], node, inner)
            n = self.part(node + "n", Ok("SRT_ILITERAL_EXPR", "int", value=d[2]), "AST_INT_EXPR")
            return self.ast(node + "a", "AST_ARRAY_DECLOR", [x, n]), base
        x, base = self.declor(d[2], node, inner)
        ps = []
        for i, p in enumerate(d[1]):
            nm = "%sf%d" % (node, i)
            pd, pb = self.declor(p, nm, self.ident(nm + ".id", text="p%d" % i))
            ps.append(self.ast(nm, "AST_PARAM_DECL", [self.specs(pb, nm, "AST_DECL_SPECS"), pd]))
        if not d[1]:
            nm = node + "v"
            ps.append(self.ast(nm, "AST_PARAM_DECL", [self.specs("void", nm, "AST_DECL_SPECS"),
                                                      self.ast(nm + ".abs", "AST_ABS_DECLOR")]))
        return self.ast(node + "f", "AST_FUNC_DECLOR", [x, self.ast(node + "l", "AST_PARAM_LIST", ps)]), base

    # ---- parts: root inlined, recursive entries opaque
    def model(self, entry, E, s, a, node):
        if self.entered == 0 and entry == self.root:
            self.entered = 1
            return None
        if E.dry:
            pass
        cur = E.read(s, (self.res[1], ("ast",)), None, node)
        base = cur
        while isinstance(base, tuple) and base[0] == "cp":
            base = base[2]
        if isinstance(base, int):
            E.finding(s, "null-deref", node, "a missing part is resolved")
            return E.dead(s, "null-deref", node)
        if base[0] != "in" or base[1] not in self.plan:
            kd = E.read(s, E.deref(s, cur, node)[0][0][:1] + (("type",),), None, node)
            if isinstance(kd, int) and ename("AstType", kd) in self.inline_kinds:
                return None
            if base[0] == "p":
                return None                  # a tree built by the resolver itself: analyse it
            raise Undecided("no plan for part %s" % show(base))
        name = base[1]
        out = self.plan[name]
        s.event("part", name, entry)
        if self.on_child:
            self.on_child(E, s, name, entry)
        L = Lab(E, s)
        if isinstance(out, Fail):
            items = []
            for i in range(out.n):
                eo = E.new_heap(s, "heap", None, None, "error of %s" % name)
                t = E.new_heap(s, "str", None, ("<error %d of %s>" % (i, name),), "error text")
                s.objs[eo].f[("message",)] = ("p", t, ())
                items.append(("p", eo, ()))
            v = L.vec(items, "t_error")
            r = L.call("new_resolverret_errors", v)
        else:
            d = self.part_dt(L, out.dtype) if out.dtype is not None else 0
            if out.kind == "SRT_ILITERAL_EXPR":
                un = isinstance(out.dtype, str) and out.dtype[0] == "u"
                lt = {"char": "INTEGER_INT", "int": "INTEGER_INT", "uint": "INTEGER_UNSIGNED_INT", "long": "INTEGER_LONG",
                      "ulong": "INTEGER_UNSIGNED_LONG", "llong": "INTEGER_LONGLONG",
                      "ullong": "INTEGER_UNSIGNED_LONGLONG"}[out.dtype]
                il = L.call("new_unsigned_iliteral" if un else "new_signed_iliteral", ev(lt),
                            out.extra.get("value", ("val", name)))
                x = L.call("new_iliteral_srt", d, il)
            elif out.kind == "SRT_IDENT_EXPR":
                x = L.call("new_identifier_srt", ev(out.kind), d, L.text("id of " + name))
            else:
                x = L.call("new_dtyped_srt", ev(out.kind), d, 0)
            so = s.wobj(x[1])
            so.f[("sliteral_id",)] = ("leafname", name)
            r = L.call("new_resolverret", x)
        return [(r, L.s)]

    def part_dt(self, L, d):
        return L.dt(d)

    def run(self, root_ast, outer=None):
        """-> list of Outcome; resolver fields not in `outer` keep the values of a fresh resolver"""
        s = self.lab.s
        o = self.obj()
        o.f[("ast",)] = root_ast
        for k, v in (outer or {}).items():
            o.f[(k,)] = v
        self.entered = 0
        self.E.entry_callees.clear()
        self.before = {k: v for k, v in self.obj().f.items()}
        self.heap0 = {x for x in s.objs if x[0] == "H"}
        self.s0 = s.fork()
        rs = self.E.call(("fn", self.root, None), [self.res], s, FAKE)
        self.outs = [Outcome(self, v, st) for v, st in rs]
        return self.outs


class Outcome:
    def __init__(self, R, v, s):
        self.R, self.s, self.v = R, s, v
        E = R.E
        o = s.objs[v[1]]
        self.srt_v = o.f.get(("srt",), 0)
        self.errs_v = o.f.get(("errs",), 0)
        self.srt = freeze(E, s, self.srt_v) if self.srt_v != 0 else None
        self.errs = None
        if self.errs_v != 0:
            f = freeze(E, s, self.errs_v)
            self.errs = []
            if f[0] == "vec":
                for p in f[1]:
                    m = fields(p[1]).get("message") if p[0] == "one" else None
                    self.errs.append(txt(m) if m is not None else "?")
            else:
                self.errs.append("?")
        self.parts = [e[1] for e in s.events() if e[0] == "part"]

    def state_diff(self, ignore=()):
        """resolver fields that did not get their values back"""
        out = []
        o = self.s.objs[self.R.res[1]]
        for k, v in self.R.before.items():
            if k[0] in ignore:
                continue
            if o.f.get(k) != v:
                out.append(k[0])
        return out

    def leaks(self):
        """objects allocated during the analysis that are neither released nor reachable any more"""
        s = self.s
        seen = set()
        todo = [self.v, self.R.res] + [("p", x, ()) for x in s.objs if x[0] in ("G", "D") or x in self.R.heap0]
        while todo:
            v = todo.pop()
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == "p" and len(v) == 3 and isinstance(v[1], tuple):
                oid = v[1]
            elif v[0] in ("in", "cp"):
                oid = ("D", v)
            else:
                todo.extend(x for x in v if isinstance(x, tuple))
                continue
            if oid in seen or oid not in s.objs:
                continue
            seen.add(oid)
            o = s.objs[oid]
            todo.extend(o.f.values())
            if isinstance(o.x, tuple):
                todo.extend(x for x in o.x if isinstance(x, tuple))
        return [(x, s.objs[x].site) for x in s.objs if x[0] == "H" and x not in seen and not s.objs[x].freed and
                x not in self.R.heap0]


def srt_show(fz):
    """frozen typed tree -> nested tuples (kind, dtype, children...) ; leaves ('leaf', name)"""
    f = fields(fz)
    if "type" not in f:
        return ("?", show(fz))
    lf = f.get("sliteral_id")
    if isinstance(lf, tuple) and lf[0] == "leafname":
        return ("leaf", lf[1])
    k = ename("SrtType", f["type"])
    k = k[4:] if isinstance(k, str) and k.startswith("SRT_") else str(k)
    d = dt_show(f["dtype"]) if f.get("dtype", 0) != 0 else None
    extra = []
    if f.get("ident_name", 0) != 0:
        extra.append(("name", txt(f["ident_name"])))
    if f.get("iliteral", 0) != 0:
        extra.append(("int",) + ilit(f["iliteral"]))
    if f.get("sliteral", 0) != 0:
        extra.append(("str", show(f["sliteral"])))
    if lf not in (-1, None):
        extra.append(("strid", lf))
    ch = f.get("children")
    cs = []
    if isinstance(ch, tuple) and ch[0] == "vec":
        cs = [srt_show(p[1]) if p[0] == "one" else ("?", show(p)) for p in ch[1]]
    return tuple([k, d] + extra + cs)


def ilit(fz):
    f = fields(fz)
    t = ename("IntegerLiteralType", f.get("type")) if "IntegerLiteralType" in prog().enumtypes else f.get("type")
    un = isinstance(t, str) and "UNSIGNED" in t
    return (t, show(f.get("unsigned_value" if un else "signed_value")))


def t_str(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "leaf":
        return t[1]
    ch = [x for x in t[2:]]
    return "%s:%s(%s)" % (t[0], d_str(t[1]), ", ".join(t_str(c) if c and c[0] not in ("name", "int", "str", "strid") else
                                                     "=".join(map(str, c)) for c in ch))


def d_str(d):
    if d is None:
        return "-"
    if isinstance(d, str):
        return d
    if d[0] == "ptr":
        return d_str(d[1]) + "*"
    if d[0] == "arr":
        return "%s[%s]" % (d_str(d[1]), d[2])
    if d[0] == "struct":
        return "struct %s" % d[1]
    if d[0] == "fn":
        return "%s(%s)" % (d_str(d[2]), ",".join(d_str(x) for x in d[1]))
    return str(d)

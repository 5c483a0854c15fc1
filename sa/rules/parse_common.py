"""Analysis of the parser: every production function is interpreted abstractly on a symbolic token stream; the phrases it delegates
to other productions are opaque.  Every path gives a chain of symbols (what was consumed) and a tree (what was built)."""
from lab import *
import interp
from rules.grammar import NTS, STMT, first, parse, FOLLOW

STEP = 1 << 16
ALL = None


def classes():
    global ALL
    if ALL is None:
        ALL = frozenset(n[len("CTOKEN_"):] for n, _ in prog().enumtypes["CTokenType"]) | {"TYPEDEF_NAME"}
    return ALL


def fn_of(X):
    return "parse_" + X


DECLORS = {"declarator", "abstract_declarator"}
INLINE = {"storage_class_specifier"}        # cannot fail once its token has been seen
NULLABLE = {"abstract_declarator", "argument_expr_list"}


class Par:
    def __init__(self, X, limit=6, max_states=60000):
        self.X, self.limit = X, limit
        self.P = prog()
        need(fn_of(X))
        self.E = E = Engine(self.P, max_states=max_states)
        E.check_mem = True
        E.maxrec = 60
        E.nonnull = lambda t: t[0] in ("in", "cp") or (t[0] == "fld" and t[2] in ("ident_name", "iliteral", "sliteral"))
        self.lab = L = Lab(E, State())
        self.root_seen = 0
        self.opaque = [Y for Y in NTS if Y not in INLINE and Y not in (DECLORS if X in DECLORS else {X}) and self.P.func(None, fn_of(Y))]
        for k, Y in enumerate(NTS):
            if Y in self.opaque:
                E.models[fn_of(Y)] = (lambda E, s, a, node, Y=Y, k=k: self.nt(Y, k, E, s, a, node))
        self.tokens = ("in", "ctokens")
        vat = E.models["vector_at"]
        E.models["vector_at"] = lambda E, s, a, node: self.at(vat, E, s, a, node)
        self.par = L.call("new_parser", self.tokens)
        o = self.obj()
        self.tdset = L.sym("typedef names")
        o.f[("typedef_names_set",)] = self.tdset
        o.f[("typedef_flag",)] = ("flag0",)
        E.termty[("flag0",)] = ("int", "int")
        self.cut = 0
        self.dep = [0]
        self.ends = {}
        self.res = self.par

    def obj(self, s=None):
        return (s or self.lab.s).wobj(self.par[1])

    # positions: a token advances by 1, an opaque phrase ends at a position of its own
    def at(self, vat, E, s, a, node):
        if a[0] != self.tokens:
            return vat(E, s, a, node)
        i = E.resolve(s, a[1])
        if not isinstance(i, int):
            s.event("junk-position")
            return E.dead(s, "junk", node)
        if i < 0 or self.depth(i) > self.limit:
            self.cut += 1
            return E.dead(s, "bound", node)
        t = ("in", "tok%d" % i)
        E.termty[("fld", t, "type")] = ("CTokenType", "enum CTokenType")
        return [(t, s)]

    def depth(self, i):
        """length of the chain up to position i"""
        return self.dep[i // STEP] + i % STEP

    def after(self, Y, idx):
        """position after phrase Y at idx"""
        k = (Y, idx)
        if k not in self.ends:
            self.ends[k] = len(self.dep) * STEP
            self.dep.append(self.depth(idx) + 1)
        return self.ends[k]

    def nt(self, Y, k, E, s, a, node):
        if E.dry:
            pass
        idx = E.resolve(s, E.read(s, (self.par[1], ("index",)), None, node))
        flag = E.resolve(s, E.read(s, (self.par[1], ("typedef_flag",)), None, node))
        if not isinstance(idx, int):
            s.event("junk-position")
            return E.dead(s, "junk", node)
        if self.depth(idx) >= self.limit:
            self.cut += 1
            return E.dead(s, "bound", node)
        failed = [e for e in s.events() if e[:3] == ("nt-fail", Y, idx)]
        passed = [e for e in s.events() if e[:3] == ("nt-ok", Y, idx)]
        out = []
        if not failed:                        # the same phrase at the same place parses the same way
            s1 = s.fork()
            end = self.after(Y, idx)
            s1.event("nt-ok", Y, idx, end, flag)
            L = Lab(E, s1)
            ast = L.call("new_identifier_ast", ("nttype", Y, idx), L.text("<%s@%d>" % (Y, idx)))
            L.s.wobj(ast[1]).f[("iliteral",)] = 0
            r = L.call("new_parserret", ast)
            o = L.s.wobj(self.par[1])
            o.f[("index",)] = end
            if Y == "decl_specifiers":
                o.f[("typedef_flag",)] = ("tdflag", idx)
                E.termty[("tdflag", idx)] = ("int", "int")
            elif Y == "specifier_qualifier_list":
                o.f[("typedef_flag",)] = 0
            if Y in ("decl", "declarator", "init_declarator", "init_declarator_list"):
                self.declare(E, L.s, idx, node)
            out.append((r, L.s))
        if not passed:
            s2 = s
            s2.event("nt-fail", Y, idx, flag)
            L = Lab(E, s2)
            eo = E.new_heap(s2, "heap", None, None, "error of %s" % Y)
            t = E.new_heap(s2, "str", None, ("<error of %s@%d>" % (Y, idx),), "error text")
            s2.objs[eo].f[("message",)] = ("p", t, ())
            r = L.call("new_parserret_error", ("p", eo, ()))
            L.s.wobj(self.par[1]).f[("index",)] = ("junk", idx, Y)
            out.append((r, L.s))
        return out

    def declare(self, E, s, idx, node):
        """a nested declaration may add names to the set that is current"""
        cur = E.read(s, (self.par[1], ("typedef_names_set",)), None, node)
        oid = cur[1] if isinstance(cur, tuple) and cur[0] == "p" else ("D", cur)
        o = s.objs.get(oid)
        if o is None or o.kind != "map":
            import models
            r = models.mapobj(E, s, cur, node)
            oid = r[0]
        s.wobj(oid).x = s.objs[oid].x + (("base", ("declared", idx)),)

    def run(self):
        s = self.lab.s
        o = self.obj()
        o.f[("index",)] = 0
        self.before = dict(o.f)
        self.heap0 = {x for x in s.objs if x[0] == "H"}
        rs = self.E.call(("fn", fn_of(self.X), None), [self.par], s, FAKE)
        return [o for o in (POut(self, v, st) for v, st in rs) if o.feasible()]


class POut:
    def __init__(self, R, v, s):
        self.R, self.s, self.v = R, s, v
        E = R.E
        o = s.objs[v[1]]
        self.ast_v, self.err_v = o.f.get(("ast",), 0), o.f.get(("err",), 0)
        p = s.objs[R.par[1]]
        self.end = E.resolve(s, p.f[("index",)])
        self.events = s.events()
        self.edges = {e[3]: (e[1], e[2], e[4]) for e in self.events if e[0] == "nt-ok"}
        self.fails = [(e[1], e[2]) for e in self.events if e[0] == "nt-fail"]

    def tokset(self, pos):
        """classes the token at pos may have on this path"""
        E, s = self.R.E, self.s
        t = ("in", "tok%d" % pos)
        d = E.dom(s, ("fld", t, "type"))
        en = prog().enumtypes["CTokenType"]
        r = {n[len("CTOKEN_"):] for n, v in en if d.has(v)}
        if "IDENT" in r:
            k = self.tdkey(pos)
            if k is None:
                r.add("TYPEDEF_NAME")
            elif k:
                r.discard("IDENT")
                r.add("TYPEDEF_NAME")
        for e in self.events:
            if e[0] == "nt-ok" and e[2] == pos and e[1] not in NULLABLE:
                r &= first(e[1])
        return frozenset(r)

    def feasible(self):
        return all(self.tokset(e[2]) for e in self.events if e[0] == "nt-ok")

    def tdkey(self, pos):
        """is the identifier at pos known to name / not to name a type?"""
        E, s = self.R.E, self.s
        nm = ("fld", ("in", "tok%d" % pos), "ident_name")
        for f, d in s.facts.items():
            if isinstance(f, tuple) and f and f[0] == "mapget" and nm in walk(f[2]):
                if d.const() == 0:
                    return False
                if not d.has(0):
                    return True
        return None

    def chain(self, end=None):
        """committed symbols from 0 to end -> list of (symbol, position, classes at its start) or None"""
        end = self.end if end is None else end
        if not isinstance(end, int):
            return None
        out = []
        while end != 0:
            if end in self.edges:
                Y, st, fl = self.edges[end]
                out.append((("nt", Y, st), st, self.tokset(st)))
                end = st
            else:
                if end % STEP == 0 or end < 0:
                    return None
                end -= 1
                out.append((None, end, self.tokset(end)))
        out.reverse()
        return out

    def tree(self, pos_index, v=None):
        fz = freeze(self.R.E, self.s, self.ast_v if v is None else v)
        return show_ast(fz, pos_index)

    def leaks(self):
        from rules.res_common import Outcome
        return Outcome.leaks(self)


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def show_ast(fz, pos):
    """frozen tree -> the grammar's tree form; pos: position -> chain index"""
    f = fields(fz)
    if "type" not in f:
        return ("?", show(fz))
    ty = f["type"]
    if isinstance(ty, tuple) and ty[0] == "nttype":
        return ("leaf", ty[1], pos.get(ty[2], "pos%d" % ty[2]))
    k = ename("AstType", ty)
    k = k[4:] if isinstance(k, str) else str(ty)
    ch = f.get("children")
    cs = tuple(show_ast(p[1], pos) if p[0] == "one" else ("?", show(p)) for p in ch[1]) if isinstance(ch, tuple) and ch[0] == "vec" else ()
    ex = []
    for fld, nm, tf in (("ident_name", "name", "ident_name"), ("iliteral", "ilit", "iliteral"), ("sliteral", "slit", "sliteral")):
        x = f.get(fld, 0)
        if x == 0:
            continue
        t = [y for y in walk(x) if isinstance(y, tuple) and len(y) == 3 and y[0] == "fld" and y[2] == tf and
             isinstance(y[1], tuple) and y[1][0] == "in" and str(y[1][1]).startswith("tok")]
        if len(set(t)) == 1 and exact_copy(x, t[0]):
            p = int(t[0][1][1][3:])
            ex.append((nm, pos.get(p, "pos%d" % p)))
        else:
            ex.append((nm, show(x)))
    return (k, cs) + tuple(sorted(ex))


def exact_copy(x, t):
    x = strip(x)
    return x in (t, ("text", (("str", t),)), ("text", (t,)))


def a_str(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "leaf":
        return "<%s:%s>" % (t[1], t[2])
    if t[0] == "?":
        return "?" + str(t[1])
    x = ["%s=#%s" % e for e in t[2:]]
    return "%s(%s)" % (t[0], ", ".join([a_str(c) for c in t[1]] + x))


def c_str(ch):
    return " ".join(("<%s>" % c[0][1]) if c[0] is not None else ("|".join(sorted(c[2])) if len(c[2]) <= 3 else "...") for c in ch)


class Facts:
    """what a path knows about the input, for the viability question"""

    def __init__(self, o):
        self.o = o
        self.e = {(e[1], e[2]): e[3] for e in o.events if e[0] == "nt-ok"}
        self.fl = set(o.fails)
        pos = set(self.e.values()) | {p for _, p in self.fl} | {p for _, p in self.e} | {0}
        t = [x for x in o.s.facts if isinstance(x, tuple) and x and x[0] == "fld" and x[2] == "type" and
             isinstance(x[1], tuple) and x[1][0] == "in" and str(x[1][1]).startswith("tok")]
        for x in t:
            pos.add(int(x[1][1][3:]))
        if isinstance(o.end, int):
            pos.add(o.end)
        self.pos = pos
        self.cache = {}

    def tokset(self, i):
        if i not in self.cache:
            self.cache[i] = self.o.tokset(i)
        return self.cache[i]

    def edge(self, X, i):
        return self.e.get((X, i))

    def failed(self, X, i):
        return (X, i) in self.fl

    def known(self, i):
        return i in self.pos


def concretize(ch, cap=4000):
    """all concrete chains of a committed chain"""
    out = [[]]
    for sym, pos, cl in ch:
        opts = [sym] if sym is not None else sorted(cl)
        out = [x + [o] for x in out for o in opts]
        if len(out) > cap:
            raise Undecided("too many token combinations")
    return out


def judge(o, X):
    """one path of production X against the grammar -> list of complaints (empty: fine)"""
    from rules.grammar import Viable
    bad = []
    if any(e[0] == "junk-position" for e in o.events):
        bad.append("parsing goes on from wherever a failed phrase stopped")
    if o.ast_v != 0 and o.err_v != 0:
        bad.append("both a tree and an error are returned")
    if o.ast_v == 0 and o.err_v == 0:
        bad.append("neither a tree nor an error is returned")
    if o.ast_v != 0:
        ch = o.chain()
        if ch is None:
            return bad + ["a tree is returned although the position is not that of a complete phrase"]
        idx = {c[1]: i for i, c in enumerate(ch)}
        got = o.tree(idx)
        for cc in concretize(ch):
            defer = ("abstract_declarator", o.end) in o.fails
            ts, _ = parse(X, cc, defer)
            if not ts:
                bad.append("accepts  %s\nwhich is no %s" % (sym_str(cc), X))
                break
            if got not in ts:
                bad.append("builds   %s\nexpected %s\nfor      %s" % (a_str(got), " or ".join(map(a_str, ts)), sym_str(cc)))
                break
            if len(ts) > 1 and not defer:
                raise Undecided("reference grammar ambiguous for %s" % sym_str(cc))
        if not bad:
            v = Viable(Facts(o))
            v.nt(X, 0)
            ext = v.exp.get(o.end, set()) & o.tokset(o.end)
            if ext:
                bad.append("stops after %s although %s continues it" % (c_str(ch) or "nothing", "|".join(sorted(ext)[:5])))
    else:
        v = Viable(Facts(o))
        why = v.check(X)
        if why:
            end = o.end if isinstance(o.end, int) else o.end[1] if isinstance(o.end, tuple) and o.end[0] == "junk" else None
            ch = o.chain(end) if end is not None else None
            bad.append("rejects input that starts with  %s %s\nalthough %s" % (
                c_str(ch) if ch is not None else "?",
                "[next: %s]" % "|".join(sorted(o.tokset(end))[:6]) if end is not None else "", "; ".join(why[:3])))
    return bad


def sym_str(cc):
    return " ".join("<%s>" % c[1] if isinstance(c, tuple) else c for c in cc) or "nothing"


LIMITS = {"for_stmt": 8, "if_else_stmt": 8, "switch_stmt": 7, "while_stmt": 7, "declarator": 6, "abstract_declarator": 6, "decl_specifiers": 4,
          "unary_expr": 5, "compound_stmt": 5, "struct_specifier": 7, "enum_specifier": 7, "postfix_expr": 6}
DEEPER = {"declarator": 8, "abstract_declarator": 8, "assignment_expr": 7, "unary_expr": 7, "postfix_expr": 8, "compound_stmt": 6,
          "decl_specifiers": 5, "translation_unit": 6}


def limit_of(X, tier):
    n = LIMITS.get(X, 5)
    if tier == "thorough":
        n = DEEPER.get(X, n + 2)
    return n


def present(names):
    return [X for X in names if prog().func(None, fn_of(X))]


OUTSIDE = set(STMT) | {"translation_unit", "function_definition", "decl"}   # cannot occur within a declarator: the mark is set anew


def state_complaints(o, X):
    """the parser's notion of which identifiers name types, before and after"""
    E, s = o.R.E, o.s
    bad = []
    p = s.objs[o.R.par[1]]
    flag = E.resolve(s, p.f[("typedef_flag",)])
    ok = o.ast_v != 0
    if X == "decl_specifiers":
        if ok:
            want = any(sym is None and cl == frozenset(["KEYWORD_TYPEDEF"]) for sym, _, cl in o.chain())
            if not isinstance(flag, int) or bool(flag) != want:
                bad.append("specifiers %s typedef are remembered as %s" % ("with" if want else "without", show(flag)))
    elif X == "specifier_qualifier_list" or X in OUTSIDE:
        pass
    elif flag != ("flag0",) and E.resolve(s, ("flag0",)) != flag:
        bad.append("whether a typedef is being declared is %s afterwards, not what it was before" % show(flag))
    spec = {}
    for e in o.events:
        if e[0] in ("nt-ok", "nt-fail"):
            fl = e[4] if e[0] == "nt-ok" else e[3]
            Y, at = e[1], e[2]
            if e[0] == "nt-ok" and Y in ("decl_specifiers", "specifier_qualifier_list"):
                spec[e[3]] = ("tdflag", at) if Y == "decl_specifiers" else 0
            if Y in ("init_declarator_list", "declarator", "struct_declarator_list") and at in spec and X != "translation_unit":
                if fl != spec[at] and not (fl == 0 and spec[at] == 0):
                    bad.append("the declarators after %s are read with the typedef mark %s" % (
                        "a list of specifiers", show(fl)))
    cur = p.f[("typedef_names_set",)]
    oid = cur[1] if isinstance(cur, tuple) and cur[0] == "p" else ("D", cur)
    ob = s.objs.get(oid)
    if ob is not None and ob.freed:
        bad.append("the set of type names was released")
        return bad
    have = list(ob.x) if ob is not None and ob.kind == "map" else [("base", o.R.tdset)]
    names = [x for x in have if x != ("base", o.R.tdset)]
    if ("base", o.R.tdset) not in have:
        bad.append("the type names known before are forgotten")
    if ok:
        ch = o.chain() or []
        want = []
        if X != "compound_stmt":
            want = [("base", ("declared", pos)) for sym, pos, _ in ch
                    if sym is not None and sym[1] in ("decl", "declarator", "init_declarator", "init_declarator_list")]
        f0 = E.dom(s, ("flag0",))
        got_named = [x for x in names if x[0] != "base"]
        got_decl = [x for x in names if x[0] == "base"]
        if X in DECLORS:
            term = [pos for sym, pos, cl in ch if sym is None and cl <= {"IDENT", "TYPEDEF_NAME"}]
            exp = [] if not f0.has(0) and not term else term
            keys = [("k", (("str", ("fld", ("in", "tok%d" % t), "ident_name")),)) for t in term]
            if f0.const() == 0:
                if got_named:
                    bad.append("an identifier becomes a type name without typedef")
            elif not f0.has(0):
                if [x[0] for x in got_named] != keys:
                    bad.append("a typedef declares the type names %s" % (got_named,))
            elif got_named or keys:
                if got_named:
                    bad.append("an identifier becomes a type name whether or not this is a typedef")
                else:
                    bad.append("a typedef does not make its name a type name")
        elif got_named:
            bad.append("type names appear: %s" % (got_named,))
        if sorted(map(repr, got_decl)) != sorted(map(repr, want)):
            bad.append("type names declared in %s are in force afterwards; expected those of %s" % (
                [x[1][1] for x in got_decl], [x[1][1] for x in want]))
    return bad


def check_production(R, X, tier, state=False):
    try:
        P = Par(X, limit_of(X, tier))
        outs = P.run()
    except Undecided as e:
        R.unk("production " + X, X, e)
        return
    R.saw(P.E.visited)
    if not any(o.ast_v != 0 for o in outs):
        R.unk("production " + X, X, "no accepting path within the bound")
        return
    seen = set()
    fail = 0
    for o in outs:
        try:
            bad = state_complaints(o, X) if state else judge(o, X)
        except Undecided as e:
            R.unk("production " + X, X, e)
            continue
        if not bad:
            R.ok("production " + X)
        for b in bad:
            k = b.split("\n")[0]
            if k in seen:
                continue
            seen.add(k)
            R.bad("production " + X, "%s: %s" % (X, k), where(X), b)
    for k, why in junk(P):
        R.bad("production " + X, "%s: %s" % (X, k), where(X), why)


def junk(P):
    for why, s, node in P.E.terminated:
        if why == "junk":
            yield "parsing goes on after a failed phrase without going back", "at %s:%s" % (node.file, node.line)
            return


def where(X):
    f = prog().func(None, fn_of(X))
    return "%s: %s" % (getattr(f, "file", "src/parser"), fn_of(X)) if f is not None else "src/parser"

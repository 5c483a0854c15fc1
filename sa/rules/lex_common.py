"""Analysis of the tokeniser: lexer_read_ctokens is interpreted abstractly on a text of a given length whose characters are unknown; what is
known about a character on a path is a set of byte values.  Every path is compared with a reference tokeniser that splits those sets further
where C does."""
from lab import *
import interp

KEYWORDS = "break case char continue default else enum for if int long return sizeof struct switch typedef unsigned void while".split()
PUNCT = {"[": "LBRACKET", "]": "RBRACKET", "(": "LPAREN", ")": "RPAREN", "{": "LBRACE", "}": "RBRACE", ".": "DOT", "->": "ARROW",
         "++": "PLUS_PLUS", "--": "MINUS_MINUS", "&": "AND", "*": "ASTERISK", "+": "PLUS", "-": "MINUS", "~": "TILDE", "!": "EXCLAM",
         "/": "SLASH", "%": "PERCENT", "<<": "LESS_LESS", ">>": "GREATER_GREATER", "<": "LESS", ">": "GREATER", "<=": "LESS_EQUAL",
         ">=": "GREATER_EQUAL", "==": "EQUAL_EQUAL", "!=": "EXCLAM_EQUAL", "^": "CARET", "|": "VBAR", "&&": "AND_AND", "||": "VBAR_VBAR",
         "?": "QUESTION", ":": "COLON", ";": "SEMICOLON", "=": "EQUAL", "*=": "ASTERISK_EQUAL", "/=": "SLASH_EQUAL", "%=": "PERCENT_EQUAL",
         "+=": "PLUS_EQUAL", "-=": "MINUS_EQUAL", "<<=": "LESS_LESS_EQUAL", ">>=": "GREATER_GREATER_EQUAL", "&=": "AND_EQUAL",
         "^=": "CARET_EQUAL", "|=": "VBAR_EQUAL", ",": "COMMA"}
DIGITS = set(b"0123456789")
ALPHA = set(b"_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
SPACE = set(b" \t\n\v\f")
HEX = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}
SIMPLE = {ord("'"): 39, ord('"'): 34, ord("?"): 63, ord("\\"): 92, ord("a"): 7, ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13,
          ord("t"): 9, ord("v"): 11}
SUFFIX = {"": "INT"}
for _u in ("u", "U"):
    SUFFIX[_u] = "UNSIGNED_INT"
    for _l in ("l", "L"):
        SUFFIX[_l] = "LONG"
        SUFFIX[_u + _l] = SUFFIX[_l + _u] = "UNSIGNED_LONG"
        SUFFIX[_l + _l] = "LONGLONG"
        SUFFIX[_u + _l + _l] = SUFFIX[_l + _l + _u] = "UNSIGNED_LONGLONG"
ANYCH = Dom(frozenset(i for i in range(-128, 128) if i != 0))


def ch(i):
    return ("ch", i)


class Lex:
    def __init__(self, n, start=None, first_only=False, max_states=40000):
        """text of n characters; start: {position: set of byte values}; first_only: stop after the first token"""
        need("lexer_read_ctokens")
        self.n, self.first_only = n, first_only
        self.P = prog()
        self.E = E = Engine(self.P, max_states=max_states)
        E.check_mem = True
        E.force_unroll = True
        E.check_bounds = True
        E.unroll = n + 70
        E.on_limit = self.limit
        self.lab = L = Lab(E, State())
        s = L.s
        oid = E.new_heap(s, "heap", None, None, "text")
        o = s.wobj(oid)
        for i in range(n):
            o.f[(i,)] = ch(i)
            E.termty[ch(i)] = ("char", "char")
            d = ANYCH if not start or i not in start else Dom(frozenset(x - 256 if x > 127 else x for x in start[i]))
            s.setfact(ch(i), d)
        o.f[(n,)] = 0
        o.f[("#size",)] = n + 1
        self.content = ("p", oid, ())
        for m, f in (("map_get", self.map_get), ("map_contains", self.map_contains), ("set_contains", self.map_contains),
                     ("strtoll", self.strto), ("strtoull", self.strto), ("strtol", self.strto), ("strtoul", self.strto)):
            E.models[m] = (lambda E, s, a, node, f=f, m=m: f(E, s, a, node, m))
        sl = E.models["strlen"]
        E.models["strlen"] = lambda E, s, a, node: [(n, s)] if a[0] == self.content else sl(E, s, a, node)
        if first_only:
            vp = E.models["vector_push"]
            E.models["vector_push"] = lambda E, s, a, node: self.push(vp, E, s, a, node)
        self.stops = []
        self.over = []
        self.lexer = L.call("new_lexer", self.content)
        self.names = {}
        lo = L.s.objs[self.lexer[1]]
        for k, v in lo.f.items():
            if isinstance(v, tuple) and v[0] == "p" and L.s.objs[v[1]].kind == "map":
                self.names[v[1]] = k[0]

    def limit(self, node, s):
        i = self.E.resolve(s, s.objs[self.lexer[1]].f[("content_index",)])
        self.over.append((node, s, i))
        return True

    def push(self, vp, E, s, a, node):
        self.stops.append((a[1], s))
        return E.dead(s, "first token", node)

    # ---- tables: keys are known, the character looked up is a set of values
    def keychars(self, E, s, v, node=None):
        """the characters of a text under construction, up to its terminator"""
        out = []
        o = s.objs.get(v[1])
        if o is None or o.kind not in ("heap", "zero"):
            return None
        i = 0
        cap = o.f.get(("#size",))
        while True:
            if isinstance(cap, int) and i >= cap:
                E.finding(s, "out-of-bounds", node or FAKE, "the text is read past the %d bytes it has" % cap)
                return out
            if (i,) not in o.f:
                if o.kind == "zero":
                    return out
                return None
            x = E.resolve(s, o.f[(i,)])
            if x == 0:
                return out
            out.append(strip(x))
            i += 1
            if i > 80:
                return None

    def map_contains(self, E, s, a, node, name):
        return [(interp.as_bool(v), st) for v, st in self.map_get(E, s, a, node, name)]

    def map_get(self, E, s, a, node, name):
        r = models.mapobj(E, s, a[0], node)
        if r is None:
            return []
        ents = r[1].x
        if any(e[0] in ("base", "hv", "removed") for e in ents):
            raise Undecided("table of unknown content")
        k = a[1]
        if not isinstance(k, tuple) or k[0] != "p":
            raise Undecided("lookup of %s" % show(k))
        if all(e[0][0] == "ki" for e in ents):
            o = s.objs[k[1]]
            c = E.resolve(s, o.f.get(k[2], o.f.get(k[2] + (0,), ("?",))))
            keys = {e[0][1]: e for e in ents}
            if isinstance(c, int):
                return [(keys[c][1] if c in keys else 0, s)]
            c = strip(c)
            out = []
            s1 = s.fork()
            if E.assume(s1, c, Dom(frozenset(keys))):
                vals = {x[1] for x in keys.values()}
                if len(vals) == 1:
                    out.append((next(iter(vals)), s1))
                else:
                    oid = E.new_heap(s1, "heap", None, None, "entry")
                    t = ("look", self.names.get(r[0], "?"), c)
                    E.termty[t] = ("int", "int")
                    ds = {s1.objs[x[1][1]].f.get((), s1.objs[x[1][1]].f.get((0,))) for v, x in keys.items() if E.dom(s1, c).has(v)}
                    if all(isinstance(d, int) for d in ds):
                        s1.setfact(t, Dom(frozenset(ds)))
                        if len(ds) == 1:
                            t = next(iter(ds))
                    s1.objs[oid].f[()] = t
                    out.append((("p", oid, ()), s1))
            d = E.dom(s, c)
            rest = Dom(frozenset(x for x in d.s if x not in keys)) if d.s is not None else Dom(None, d.lo, d.hi, d.ex | frozenset(keys))
            if E.assume(s, c, rest):
                out.append((0, s))
            return out
        cs = self.keychars(E, s, k, node)
        if cs is None:
            m = models.map_lookup(E, s, ents, models.mkey(E, s, k), len(ents) - 1, 0)
            return m
        tab = {}
        for e in ents:
            t = interp.pieces_text(e[0][1])
            if t is None:
                raise Undecided("key of unknown content")
            tab[t] = e[1]
        return self.trie(E, s, tab, cs, 0, "")

    def trie(self, E, s, tab, cs, i, pre):
        if i == len(cs):
            return [(tab.get(pre, 0), s)]
        nxt = sorted({t[i] for t in tab if len(t) > i and t[:i] == pre})
        out = []
        c = cs[i]
        if isinstance(c, int):
            x = chr(c % 256)
            return self.trie(E, s, tab, cs, i + 1, pre + x) if x in nxt else [(0, s)]
        for x in nxt:
            s1 = s.fork()
            if E.assume(s1, c, Dom(frozenset([ord(x)]))):
                out += self.trie(E, s1, tab, cs, i + 1, pre + x)
        d = E.dom(s, c)
        ks = {ord(x) for x in nxt}
        rest = Dom(frozenset(x for x in d.s if x not in ks)) if d.s is not None else Dom(None, d.lo, d.hi, d.ex | frozenset(ks))
        if E.assume(s, c, rest):
            out.append((0, s))
        return out

    def strto(self, E, s, a, node, name):
        cs = self.keychars(E, s, a[0], node)
        if cs is None:
            raise Undecided("number of unknown digits")
        t = ("number", name, tuple(cs), a[2])
        top = (1 << 64) - 1 if name in ("strtoull", "strtoul") else (1 << 63) - 1
        if isinstance(a[2], int):
            lo = [min(E.dom(s, c).s) % 256 if isinstance(c, tuple) else c % 256 for c in cs]
            hi = [max(E.dom(s, c).s) % 256 if isinstance(c, tuple) else c % 256 for c in cs]
            if all(x in HEX for x in lo + hi):
                if lo == hi:
                    return [(min(top, ev_number(lo, a[2])), s)]
                top = min(top, a[2] ** len(cs) - 1)
        E.termty[t] = ("unsigned long long", "unsigned long long") if "u" in name else ("long long", "long long")
        if t not in s.facts:
            s.setfact(t, Dom(None, 0, top))
        return [(t, s)]

    def run(self):
        s = self.lab.s
        self.heap0 = {x for x in s.objs if x[0] == "H"}
        rs = self.E.call(("fn", "lexer_read_ctokens", None), [self.lexer], s, FAKE)
        outs = []
        for v, st in self.stops:
            outs.append(LOut(self, st, [v], None))
        for v, st in rs:
            o = st.objs[v[1]]
            tv, ev_ = o.f.get(("ctokens",), 0), o.f.get(("err",), 0)
            toks = None
            if tv != 0:
                toks = [p[1] for p in st.objs[tv[1]].x]
            outs.append(LOut(self, st, toks, ev_ if ev_ != 0 else None, v))
        return outs


class LOut:
    def __init__(self, R, s, toks, err, v=None):
        self.R, self.s, self.toks, self.err, self.v = R, s, toks, err, v
        self.res = R.lexer
        E = R.E
        self.index = E.resolve(s, s.objs[R.lexer[1]].f[("content_index",)])
        self.doms = [E.dom(s, ch(i)) for i in range(R.n)]
        self.numbers = [(k, d) for k, d in s.facts.items() if isinstance(k, tuple) and k and k[0] == "number"]

    def leaks(self):
        from rules.res_common import Outcome
        self.R.res = self.R.lexer
        return [x for x in Outcome.leaks(self) if x[1] != "entry"]

    def token(self, v):
        """-> (kind, detail)"""
        E, s = self.R.E, self.s
        o = s.objs[v[1]]
        k = ename("CTokenType", E.resolve(s, o.f[("type",)]))
        k = k[len("CTOKEN_"):] if isinstance(k, str) and k.startswith("CTOKEN_") else str(k)
        if k == "IDENT":
            return (k, tuple(self.chars(o.f[("ident_name",)]) or ["?"]))
        if k in ("INT", "CHAR"):
            f = s.objs[o.f[("iliteral",)][1]].f
            t = ename("IntegerLiteralType", f[("type",)])
            un = isinstance(t, str) and "UNSIGNED" in t
            return (k, t[len("INTEGER_"):] if isinstance(t, str) else t, self.norm(f.get(("unsigned_value" if un else "signed_value",))))
        if k == "STRING":
            f = s.objs[o.f[("sliteral",)][1]].f
            n = E.resolve(s, f[("size",)])
            vo = s.objs[f[("value",)][1]]
            xs = tuple(self.norm(vo.f.get((i,), 0 if vo.kind == "zero" else "?")) for i in range(n)) if isinstance(n, int) else ("?", show(n))
            return (k, n, xs)
        return (k,)

    def norm(self, t):
        t = self.R.E.resolve(self.s, t) if isinstance(t, tuple) else t
        return strip(t) if isinstance(t, tuple) else t

    def chars(self, v):
        o = self.s.objs.get(v[1])
        if o is not None and o.kind in ("str", "buf"):
            return [show(o.x)]
        return self.R.keychars(self.R.E, self.s, v)


def errors_made(o):
    """diagnostics created on the path, released or not"""
    from rules.fail_common import all_errors
    return all_errors(o.R.E, o.s, o.R.heap0)


# ------------------------------------------------------------------ the reference tokeniser over sets of characters
class Split(Exception):
    def __init__(self, pos, vals):
        self.pos, self.vals = pos, frozenset(vals)


class Text:
    """characters as sets of byte values; a question that the sets do not answer asks for a split"""

    def __init__(self, sets):
        self.sets = sets

    def isin(self, i, vals):
        if i >= len(self.sets):
            return False
        a = self.sets[i] & frozenset(vals)
        if not a:
            return False
        if a == self.sets[i]:
            return True
        raise Split(i, vals)

    def one(self, i):
        """the only value of a character"""
        s = self.sets[i]
        if len(s) == 1:
            return next(iter(s))
        raise Split(i, {min(s)})


class LexError(Exception):
    pass


def ref_token(T, i):
    """-> (token, next position); token details refer to character positions"""
    n = len(T.sets)
    if i >= n:
        return ("EOF",), i
    if T.isin(i, ALPHA):
        j = i + 1
        while T.isin(j, ALPHA) or T.isin(j, DIGITS):
            j += 1
        ks = [k for k in KEYWORDS if len(k) == j - i]
        for d in range(j - i):
            nk = []
            for x in sorted({k[d] for k in ks}):
                if T.isin(i + d, {ord(x)}):
                    nk = [k for k in ks if k[d] == x]
                    break
            ks = nk
        if ks:
            return ("KEYWORD_" + ks[0].upper(),), j
        return ("IDENT", tuple(range(i, j))), j
    if T.isin(i, DIGITS):
        return ref_number(T, i)
    if T.isin(i, {ord("'")}):
        j = i + 1
        if j >= n or T.isin(j, {10}) or T.isin(j, {ord("'")}):
            raise LexError
        v, j = ref_char(T, j)
        while True:
            if j >= n or T.isin(j, {10}):
                raise LexError
            if T.isin(j, {ord("'")}):
                return ("CHAR", "INT", v), j + 1
            _, j = ref_char(T, j)
    if T.isin(i, {ord('"')}):
        j = i + 1
        out = []
        while True:
            if j >= n or T.isin(j, {10}):
                raise LexError
            if T.isin(j, {ord('"')}):
                return ("STRING", len(out) + 1, tuple(out) + (0,)), j + 1
            v, j = ref_char(T, j)
            out.append(v)
    ps = list(PUNCT)
    best = None
    for d in range(3):
        nx = []
        for x in sorted({p[d] for p in ps if len(p) > d}):
            if i + d < n and T.isin(i + d, {ord(x)}):
                nx = [p for p in ps if len(p) > d and p[d] == x]
                break
        ps = nx
        for p in ps:
            if len(p) == d + 1:
                best = p
        if not ps:
            break
    if best is None:
        raise LexError
    return (PUNCT[best],), i + len(best)


def ref_number(T, i):
    n = len(T.sets)
    if T.isin(i, {ord("0")}):
        if T.isin(i + 1, {ord("x"), ord("X")}):
            j = i + 2
            while T.isin(j, HEX):
                j += 1
            if j == i + 2:
                raise LexError
            base, ds = 16, (i + 2, j)
        else:
            j = i + 1
            while T.isin(j, set(b"01234567")):
                j += 1
            base, ds = 8, (i, j)
    else:
        j = i + 1
        while T.isin(j, DIGITS):
            j += 1
        base, ds = 10, (i, j)
    sfx = ""
    cur = list(SUFFIX)
    best = ""
    for d in range(3):
        nx = []
        for x in sorted({p[d] for p in cur if len(p) > d}):
            if T.isin(j + d, {ord(x)}):
                nx = [p for p in cur if len(p) > d and p[d] == x]
                break
        cur = nx
        for p in cur:
            if len(p) == d + 1:
                best = p
        if not cur:
            break
    return ("INT", SUFFIX[best], ("number", base, tuple(range(*ds)))), j + len(best)


def ref_char(T, j):
    n = len(T.sets)
    if not T.isin(j, {92}):
        return ("chr", j), j + 1
    j += 1
    if j >= n:
        raise LexError
    if T.isin(j, set(b"01234567")):
        k = j + 1
        while k < j + 3 and T.isin(k, set(b"01234567")):
            k += 1
        return ("digits", 8, tuple(range(j, k))), k
    if T.isin(j, {ord("x")}):
        k = j + 1
        while T.isin(k, HEX):
            k += 1
        if k == j + 1:
            raise LexError
        return ("digits", 16, tuple(range(j + 1, k))), k
    for c, v in SIMPLE.items():
        if T.isin(j, {c}):
            return v, j + 1
    raise LexError


def ref_all(T, first_only=False):
    """-> (tokens, error?, end)"""
    i, out = 0, []
    while True:
        while T.isin(i, SPACE):
            i += 1
        try:
            t, i = ref_token(T, i)
        except LexError:
            return out, True, i
        out.append(t)
        if first_only or t == ("EOF",):
            return out, False, i


def cases_of(doms, first_only=False, cap=3000):
    """splits the character sets until the reference is decided -> [(sets, tokens, error, end)]"""
    todo = [[frozenset(x for x in d.s) for d in doms]]
    out = []
    while todo:
        sets = todo.pop()
        try:
            out.append((sets,) + ref_all(Text(sets), first_only))
        except Split as e:
            a = sets[e.pos] & e.vals
            for part in (a, sets[e.pos] - a):
                x = list(sets)
                x[e.pos] = part
                todo.append(x)
        if len(out) + len(todo) > cap:
            raise Undecided("too many cases")
    return out


# ------------------------------------------------------------------ comparing a path with the reference
def ev_term(t, asg, tables):
    """value of a term when the characters have the values asg"""
    if isinstance(t, int):
        return t
    if t[0] == "ch":
        x = asg[t[1]]
        return x - 256 if x > 127 else x
    if t[0] == "trunc":
        return interp.trunc_int(ev_term(t[3], asg, tables), t[1], t[2])
    if t[0] == "lin":
        return t[1] + sum(c * ev_term(x, asg, tables) for x, c in t[2])
    if t[0] == "look":
        return tables[t[1]][ev_term(t[2], asg, tables)]
    if t[0] == "mul":
        v = 1
        for x in t[1:]:
            v *= ev_term(x, asg, tables)
        return v
    if t[0] == "number":
        txt = "".join(chr(ev_term(x, asg, tables) % 256) for x in t[2])
        base = t[3]
        v = 0
        if base == 16 and txt[:2].lower() == "0x":
            txt = txt[2:]
        for c in txt:
            d = HEX.get(ord(c), 99)
            if d >= base:
                break
            v = v * base + d
        return v
    raise Undecided("term %s" % (show(t),))


def ev_number(cs, base):
    v = 0
    for c in cs:
        d = HEX.get(c, 99)
        if d >= base:
            break
        v = v * base + d
    return v


def ref_value(t, asg):
    if isinstance(t, int):
        return t
    if t[0] == "chr":
        x = asg[t[1]]
        return x - 256 if x > 127 else x
    if t[0] in ("digits", "number"):
        v = 0
        for p in t[2]:
            v = v * t[1] + HEX[asg[p]]
        return v
    raise ValueError(t)


def samples(sets):
    """a few assignments that tell different linear forms apart"""
    lo = [min(s, default=0) for s in sets]
    hi = [max(s, default=0) for s in sets]
    yield lo
    yield hi
    for i in range(len(sets)):
        x = list(lo)
        x[i] = hi[i]
        yield x
        for v in sorted(sets[i])[1:-1][:2]:
            y = list(lo)
            y[i] = v
            yield y


def byte_sets(doms):
    return [frozenset(x % 256 for x in d.s) for d in doms]


def tables_of(R):
    out = {}
    s = R.lab.s
    for oid, name in R.names.items():
        d = {}
        for e in s.objs[oid].x:
            if e[0][0] == "ki" and isinstance(e[1], tuple):
                o = s.objs[e[1][1]]
                d[e[0][1]] = o.f.get((), o.f.get((0,)))
        out[name] = d
    return out


ORDER = {"INT": ["INT", "UNSIGNED_INT", "LONG", "UNSIGNED_LONG"], "UNSIGNED_INT": ["UNSIGNED_INT", "UNSIGNED_LONG"],
         "LONG": ["LONG", "UNSIGNED_LONG"], "UNSIGNED_LONG": ["UNSIGNED_LONG"], "LONGLONG": ["LONGLONG", "UNSIGNED_LONGLONG"],
         "UNSIGNED_LONGLONG": ["UNSIGNED_LONGLONG"]}
MAXV = {"INT": (1 << 31) - 1, "UNSIGNED_INT": (1 << 32) - 1, "LONG": (1 << 63) - 1, "UNSIGNED_LONG": (1 << 64) - 1,
        "LONGLONG": (1 << 63) - 1, "UNSIGNED_LONGLONG": (1 << 64) - 1}


def const_type(sfx, base, v):
    """C11 6.4.4.1p5: the first type of the list that holds the value; None if there is none"""
    for t in ORDER[sfx]:
        if base == 10 and t.startswith("UNSIGNED") and not sfx.startswith("UNSIGNED"):
            continue
        if v <= MAXV[t]:
            return t
    return None


def consistent(o, asg, tables):
    """whether the path can be taken when the characters have these values"""
    for t, d in o.numbers:
        if not d.has(ev_term(t, asg, tables)):
            return False
    return True


def same_token(exp, act, sets, tables, o=None):
    """-> None or what differs"""
    if exp[0] != act[0]:
        return "is read as %s, not as %s" % (act[0], exp[0])
    if exp[0] == "IDENT":
        if len(exp[1]) != len(act[1]):
            return "an identifier of %d characters becomes one of %d" % (len(exp[1]), len(act[1]))
        for p, a in zip(exp[1], act[1]):
            if isinstance(a, str):
                raise Undecided("identifier text %s" % a)
            if a != ch(p):
                for asg in samples(sets):
                    if ev_term(a, asg, tables) % 256 != asg[p]:
                        return "the identifier is spelled differently"
    if exp[0] in ("INT", "CHAR"):
        for asg in samples(sets):
            if o is not None and not consistent(o, asg, tables):
                continue
            b = ref_value(exp[2], asg)
            t = const_type(exp[1], exp[2][1], b) if exp[0] == "INT" else exp[1]
            if t is None:
                continue
            if t != act[1]:
                return "the constant %d has type %s, not %s" % (b, act[1], t)
            a = ev_term(act[2], asg, tables)
            if a != b and not (exp[0] == "CHAR" and not 0 <= b < 128 and (a - b) % 256 == 0):
                return "the value is %d, not %d" % (a, b)
    if exp[0] == "STRING":
        if exp[1] != act[1]:
            return "the string has %s bytes, not %d" % (act[1], exp[1])
        for asg in samples(sets):
            for i, (x, y) in enumerate(zip(act[2], exp[2])):
                if x == "?":
                    return "byte %d of the string is never written" % i
                a, b = ev_term(x, asg, tables), ref_value(y, asg)
                if (a - b) % 256:
                    return "byte %d of the string is %d, not %d" % (i, a % 256, b % 256)
    return None


def spell(sets, n=None):
    out = ""
    for s in sets[:n]:
        vis = [c for c in sorted(s) if 33 <= c < 127]
        c = vis[0] if vis else min(s, default=63)
        out += chr(c) if 32 <= c < 127 else {10: "\\n", 9: "\\t"}.get(c, "\\x%02x" % c)
    return out


def kind_of(tok):
    if tok is None:
        return "error"
    return {"IDENT": "identifiers and keywords", "INT": "integer constants", "CHAR": "character constants", "STRING": "string literals",
            "EOF": "end of input"}.get(tok[0], "identifiers and keywords" if tok[0].startswith("KEYWORD") else "punctuators")


def judge_lex(o, first_only, tables):
    """-> list of (class of the expected token, complaint or None, text)"""
    out = []
    try:
        cs = cases_of_sets(byte_sets(o.doms), first_only)
    except Undecided as e:
        return [("?", e, "")]
    for sets, toks, err, end in cs:
        text = spell(sets)
        lastk = kind_of(toks[-1]) if toks and not err else "error"
        if o.toks is None:
            if not err:
                out.append((lastk, "valid text is rejected", text))
            else:
                out.append(("error", None, text))
            continue
        if err:
            act = [o.token(t) for t in o.toks]
            out.append(("error", "invalid text is accepted%s" % (": the rest of the text is dropped" if act[-1:] == [("EOF",)] and o.index < len(sets) else ""), text))
            continue
        act = [o.token(t) for t in o.toks]
        bad = None
        for e, a in zip(toks, act):
            d = same_token(e, a, sets, tables, o)
            if d:
                bad = (kind_of(e), d, text)
                break
        if bad is None and len(toks) != len(act):
            bad = ("sequence of tokens", "%d tokens become %d" % (len(toks), len(act)), text)
        if bad is None and first_only and o.index != end:
            bad = (kind_of(toks[0]), "the next token is read from position %s, not %s" % (o.index, end), text)
        out.append(bad or (lastk if len(toks) == 1 else "sequence of tokens", None, text))
    return out


def cases_of_sets(sets, first_only, cap=20000):
    todo = [list(sets)]
    out = []
    while todo:
        x = todo.pop()
        try:
            out.append((x,) + ref_all(Text(x), first_only))
        except Split as e:
            a = x[e.pos] & e.vals
            for part in (a, x[e.pos] - a):
                y = list(x)
                y[e.pos] = part
                todo.append(y)
        if len(out) + len(todo) > cap:
            raise Undecided("too many cases")
    return out


REST = frozenset(range(1, 256)) - ALPHA - DIGITS - SPACE - {34, 39}


def fixed(text):
    return {i: frozenset([ord(c)]) for i, c in enumerate(text)}


def scenarios(tier, topics=None):
    """(name, length, {position: values}, first token only), heavy ones first"""
    deep = tier == "thorough"
    one = frozenset
    few = frozenset(b" \nai1+->=;\"'\\")
    out = []

    def add(topic, *a):
        if topics is None or topic in topics:
            out.append(a)
    for n in ([8, 7] if deep else []) + [6, 5, 4, 3]:
        add("words", "words of up to %d characters" % n, n, dict([(0, ALPHA)] + [(i, ALPHA | DIGITS) for i in range(1, n - 1)]), True)
    for n in (10, 9, 8, 7):
        add("words", "words of %d or %d letters" % (n - 1, n), n, dict((i, ALPHA) for i in range(0, n - 1)), True)
    # of a keyword, a variation at every place and every character after it
    for k in KEYWORDS:
        for i in range(len(k) + 1):
            st = fixed(k)
            if i < len(k):
                st[i] = ALPHA if i == 0 else ALPHA | DIGITS
            add("words", "'%s' with any character at place %d" % (k, i), len(k) + 1, st, True)
    word = frozenset(b"zZ")
    for n in (17, 33, 65):
        add("words", "a word of %d characters" % n, n, dict([(0, frozenset(b"Q"))] + [(i, word if i % 8 == 0 else one(b"x")) for i in range(1, n)]), True)
    for n in ([6] if deep else []) + [5, 4, 3]:
        add("numbers", "numbers of up to %d characters" % n, n, {0: DIGITS}, True)
    for n in (10, 19):
        add("numbers", "a decimal constant of %d digits" % n, n, dict([(0, frozenset(b"12"))] + [(i, frozenset(b"049")) for i in range(1, n)]), True)
        add("numbers", "a hexadecimal constant of %d digits" % (n - 3), n, dict([(0, frozenset(b"0")), (1, frozenset(b"xX"))] + [(i, frozenset(b"09afAF")) for i in range(2, n - 1)]), True)
    sx = ["", "u", "l", "ul", "ll", "ull"] if not deep else sorted(SUFFIX)
    for lim in ("2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
                "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff",
                "017777777777", "020000000000", "037777777777", "040000000000", "0777777777777777777777", "01000000000000000000000",
                "01777777777777777777777"):
        for x in sx:
            t = lim + x
            add("numbers", "the constant %s" % t, len(t) + 1, {**fixed(t), len(t): frozenset(b" ;)+")}, True)
    for q in (34, 39):
        for n in ([6] if deep else []) + [5, 4, 3]:
            add("strings", "%s of up to %d bytes" % ("strings" if q == 34 else "character constants", n), n, {0: one([q])}, True)
        add("strings", "an octal escape", 7, {0: one([q]), 1: one([92]), 2: frozenset(b"01234567"), 3: frozenset(b"0123456789"), 4: frozenset(b"0123456789"), 5: frozenset(b"0123456789") | {q}, 6: one([q])}, True)
        add("strings", "a hexadecimal escape", 6, {0: one([q]), 1: one([92]), 2: one([120]), 3: frozenset(HEX), 4: frozenset(HEX) | {q}, 5: one([q])}, True)
    for n in (9, 18, 35):
        add("strings", "a string of %d bytes" % n, n, dict([(0, one([34]))] + [(i, frozenset(b"azZ 09%")) for i in range(1, n - 1)] + [(n - 1, one([34]))]), True)
    add("texts", "texts of 3 bytes over %d characters" % len(few), 3, {i: few for i in range(3)}, False)
    for n in (2, 1, 0):
        add("texts", "every text of %d bytes" % n, n, {}, False)
    for n in (4, 3):
        add("puncts", "punctuators of up to %d characters" % n, n, {0: REST}, True)
        add("puncts", "white space and %d more" % (n - 1), n, {0: SPACE, 1: SPACE | frozenset(b"a1+")}, True)
    return out


def analyse(sc):
    name, n, start, first = sc
    x = Lex(n, start, first)
    x.outs = x.run()
    return x


def judge_scene(R, sc, mine):
    """obligations of one scenario; mine: classes that belong to the property at hand"""
    try:
        x = analyse(sc)
    except Undecided as e:
        R.unk("tokens", sc[0], e)
        return
    R.saw(x.E.visited)
    tabs = tables_of(x)
    where = "lexer_read_ctokens (src/lexer), %s" % sc[0]
    for o in x.outs:
        try:
            res = judge_lex(o, sc[3], tabs)
        except Undecided as e:
            R.unk("tokens", sc[0], e)
            continue
        for kind, why, text in res:
            if kind == "?":
                R.unk("tokens", sc[0], why)
            elif kind in mine:
                if why is None:
                    R.ok(kind, "%s: %s" % (sc[0], text))
                else:
                    R.bad(kind, why, where, "the text  %s  : %s" % (text, why))
    if "end of input" in mine:
        for node, s, i in x.over:
            R.bad("end of input", "the tokeniser never ends", "%s:%s" % (node.file, node.line), "%s; position %s of %d" % (sc[0], show(i) if isinstance(i, tuple) else i, sc[1]))
        for kind, node, msg in stops(x):
            R.bad("end of input", kind, node, "%s: %s" % (sc[0], msg))


def stops(x):
    """paths on which the tokeniser ends without an answer (crash, exit)"""
    out = []
    for w in x.E.terminated:
        if w[0] in ("first token", "endless"):
            continue
        out.append(("the tokeniser stops without an answer", str(w[1:3])[:120], str(w[0])))
    return out

"""P12: a name means the innermost declaration in scope."""
from itertools import product
from rules.prog_common import *
from rules.typing import INTS
from report import pmap

META = {"level": "other",
        "explanation": "The semantic stage is interpreted abstractly on whole translation units in which a name or tag is declared at any subset of the "
                       "places a declaration can stand, each time with a different type, and used at every point. The declaration each use is "
                       "resolved to (seen in its type or value), and the rejection of undeclared and doubly declared names, are compared with "
                       "C11 6.2.1. Where several structs share a tag, every member access is followed through the lowering to the address it stores to, and compared "
                       "with the layout of the struct the object was declared with; pointers to different ones must not be assigned to each other.",
        "assumptions": ["three nested scopes below the function, one name at a time: a lookup depends on the chain of scopes only through the innermost "
                        "one that has the name"]}

# place -> type that marks it
MARK = {"file": ["int"], "param": ["long"], "body": ["char"], "block": ["unsigned"], "inner": ["unsigned", "long"], "for": ["long", "long"],
        "forbody": ["unsigned", "long", "long"], "late": ["int", "long", "long", "unsigned"]}
VALUE = {"file": 11, "body": 13, "block": 14, "inner": 15, "for": 16, "forbody": 17}
U = ("expr", ("use", "n"))


def declare(place, how):
    if how == "obj":
        return [("decl", MARK[place], [((), "n", None)])]
    if how == "self":
        return [("decl", MARK[place], [((), "n", ("use", "n"))])]
    if how == "ptr":
        return [("decl", MARK[place], [((("ptr",),), "n", None)])]
    if how == "enum":
        return [("decl", [("enum", None, [("n", VALUE[place]), ("n_" + place, ("use", "n"))])], [])]
    if how == "fn":
        return [("decl", MARK[place], [((("fn", ()),), "n", None)])]
    return []


def program(c):
    """c: place -> how"""
    g = c.get
    fn = ("fn", ((MARK["param"], (), "n"),) if g("param") else ())
    blk = ("cmpd", [U] + declare("block", g("block")) + [U, ("cmpd", [U] + declare("inner", g("inner")) + [U]), U])
    d = declare("for", g("for"))
    loop = ("for", d[0] if d else ("null",), U, U, ("cmpd", [U] + declare("forbody", g("forbody")) + [U]))
    body = [U] + declare("body", g("body")) + [U, blk, U, loop, U, ("while", U), ("if", U, U)]
    return declare("file", g("file")) + [("func", ["void"], (fn,), "f", body), ("func", ["void"], (("fn", ()),), "h", [U])]


def tag_program(c):
    """the same with a tag: every place defines struct n with its own size"""
    def de(place):
        h = c.get(place)
        if h == "struct":
            return [("decl", [("struct", "n", [(["char"], [((("arr", VALUE[place]),), "a")])])], [])]
        if h == "struct obj":
            return [("decl", [("struct", "n", [(["char"], [((("arr", VALUE[place]),), "a")])])], [((), "v" + place, None)])]
        return []
    u = ("expr", ("sizeof", [("struct", "n", None)]))
    uo = ("decl", [("struct", "n", None)], [((("ptr",),), "q", None)])
    blk = ("cmpd", [u] + de("block") + [u, ("cmpd", [u] + de("inner") + [u, uo]), u])
    d = de("for")
    loop = ("for", d[0] if d else ("null",), u, u, ("cmpd", [u] + de("forbody") + [u]))
    body = [u] + de("body") + [u, blk, u, loop, u]
    return de("file") + [("func", ["void"], (("fn", ()),), "f", body), ("func", ["void"], (("fn", ()),), "h", [u])]


# ------------------------------------------------------------------ reference
class Ref:
    def __init__(self):
        self.W = World()
        self.W.soft, self.W.declared = False, []
        self.seen = []

    def enter(self):
        self.W.syms.append({})
        self.W.tags.append({})

    def leave(self):
        self.W.syms.pop()
        self.W.tags.pop()

    def e(self, e):
        if e == "x":
            return
        if e[0] == "k":
            return
        if e[0] in ("use", "set"):
            s = self.W.find(e[1])
            if s is None:
                raise Rej
            self.seen.append(s)
            return s
        if e[0] == "sizeof":
            d = ref_specs(self.W, e[1])[1]
            if incomplete(d):
                raise Rej
            self.seen.append(("int", t_size(d)))
            return ("int", t_size(d))

    def decl(self, specs, items):
        sp = []
        for x in specs:
            if isinstance(x, tuple) and x[0] == "enum" and x[2] is not None:
                done = []
                for n, v in x[2]:
                    if isinstance(v, tuple):
                        # a value written as a name: look it up where it stands
                        probe = dict(done)
                        s = ("int", probe[v[1]]) if v[1] in probe else self.W.find(v[1])
                        if s is None or s[0] != "int":
                            raise Rej
                        v = s[1]
                    done.append((n, v if v is not None else (done[-1][1] + 1 if done else 0)))
                x = ("enum", x[1], [(n, v) for n, v in done])
            sp.append(x)
        td, base = ref_specs(self.W, sp)
        glob = len(self.W.syms) == 1
        for dv, name, init in items:
            ref_decl_one(self, td, base, dv, name, init, glob)

    def stmt(self, s):
        k = s[0]
        if k == "decl":
            self.decl(s[1], s[2])
        elif k == "cmpd":
            self.enter()
            for x in s[1]:
                self.stmt(x)
            self.leave()
        elif k == "for":
            self.enter()
            for x in s[1:]:
                self.stmt(x)
            self.leave()
        elif k == "expr":
            self.e(s[1])
        else:
            for x in s[1:]:
                if isinstance(x, tuple):
                    self.stmt(x)

    def prog(self, exts):
        for x in exts:
            if x[0] == "decl":
                self.decl(x[1], x[2])
                continue
            td, base = ref_specs(self.W, x[1])
            d = ref_declor(self.W, base, x[2])
            if x[3] in self.W.syms[0]:
                if self.W.syms[0][x[3]] == ("obj", d):
                    raise Free
                raise Rej
            self.W.syms[0][x[3]] = ("obj", d)
            self.enter()
            for n, p in d[1]:
                self.W.syms[-1][n] = ("obj", p)
            for s in x[4]:
                self.stmt(s)
            self.leave()


def ref_decl_one(ref, td, base, dv, name, init, glob):
    W = ref.W
    d = ref_declor(W, base, dv)
    new = ("typedef", d) if td else ("obj", d)
    if incomplete(d) and not td:
        if glob and d != "void":
            raise Free
        raise Rej
    old = W.syms[-1].get(name)
    if old is not None:
        if old == new and (glob or td or is_fn(d)):
            raise Free
        raise Rej
    W.syms[-1][name] = new
    if init is not None:
        x = ref.e(init)
        if x is not None and (x[0] == "typedef" or x[0] == "obj" and not is_int(x[1])):
            raise Free                           # whether its type fits is another property's business


def observed(fz, out):
    """declarations the uses were resolved to, in source order"""
    f = fields(fz)
    k = ename("SrtType", f["type"])
    if k == "SRT_IDENT_EXPR":
        out.append(("obj", dt_full(f["dtype"])))
        return
    if k == "SRT_ILITERAL_EXPR":
        g = fields(f["iliteral"])
        un = "UNSIGNED" in str(ename("IntegerLiteralType", g["type"]))
        out.append(("int", g.get("unsigned_value" if un else "signed_value")))
        return
    ch = f.get("children")
    if isinstance(ch, tuple) and ch[0] == "vec":
        for p in ch[1]:
            if p[0] == "one":
                observed(p[1], out)


def cases(tier):
    places = ["file", "param", "body", "block", "inner", "for", "forbody"]
    for how in ("obj", "enum", "ptr", "fn", "self"):
        pl = [p for p in places if not (p == "param" and how != "obj") and not (how == "enum" and p == "for") and not (how == "self" and p == "file")]
        for n in range(2 ** len(pl)):
            c = {p: how for i, p in enumerate(pl) if n >> i & 1}
            if how == "self":
                c["file"] = "obj"
            elif how in ("ptr", "fn") and n % 3:
                continue
            yield ("use of an ordinary name", program(c))
    mixed = [{"file": a, "param": b, "body": None, "block": c, "inner": d, "for": e} for a, b, c, d, e in
             product(("obj", "enum", "fn", None), ("obj", None), ("obj", "enum", "ptr", None), ("obj", "enum", None), ("obj", None))]
    for c in mixed:
        yield ("use of an ordinary name", program(c))
    for n in range(2 ** len(places)):
        yield ("storage of a name", program({p: "obj" for i, p in enumerate(places) if n >> i & 1}))
    pl = ["file", "body", "block", "inner", "for", "forbody"]
    for n in range(2 ** len(pl)):
        yield ("use of a tag", tag_program({p: "struct" for i, p in enumerate(pl) if n >> i & 1}))
        if n % 3 == 0:
            yield ("use of a tag", tag_program({p: "struct obj" for i, p in enumerate(pl) if n >> i & 1}))
    for x in tag_scenarios(tier):
        yield x
    for x in redeclarations():
        yield x


KINDS = {"object": ("decl", ["int"], [((), "n", None)]), "other object": ("decl", ["char"], [((), "n", None)]),
         "array": ("decl", ["int"], [((("arr", 3),), "n", None)]), "pointer": ("decl", ["int"], [((("ptr",),), "n", None)]),
         "function": ("decl", ["int"], [((("fn", ()),), "n", None)]), "typedef": ("decl", ["typedef", "int"], [((), "n", None)]),
         "other typedef": ("decl", ["typedef", "char"], [((), "n", None)]),
         "enumerator": ("decl", [("enum", None, [("n", None)])], []), "second enumerator": ("decl", [("enum", None, [("k", 3), ("n", None)])], []),
         "initialised": ("decl", ["long"], [((), "n", "x")]),
         "struct tag": ("decl", [("struct", "n", [(["int"], [((), "a")])])], []),
         "other struct tag": ("decl", [("struct", "n", [(["char"], [((), "b")])])], []),
         "enum tag": ("decl", [("enum", "n", [("ek", None)])], []), "other enum tag": ("decl", [("enum", "n", [("ej", None)])], []),
         "struct use": ("decl", [("struct", "n", None)], [((("ptr",),), "p", None)]),
         "enum use": ("decl", [("enum", "n", None)], [((), "p", None)]),
         "struct object": ("decl", [("struct", "n", None)], [((), "p", None)]), "undeclared": ("decl", ["int"], [((), "p", ("use", "n"))]),
         "two at once": ("decl", ["int"], [((), "n", None), ((), "n", None)]), "two kinds": ("decl", ["int"], [((("ptr",),), "n", None), ((), "n", None)]),
         "twice an enumerator": ("decl", [("enum", None, [("n", None), ("n", 2)])], []),
         "enumerator and object": ("decl", [("enum", None, [("n", None)])], [((), "n", None)]),
         "tag and object": ("decl", [("struct", "n", [(["int"], [((), "n")])])], [((), "n", None)]),
         "members twice": ("decl", [("struct", "m", [(["int"], [((), "n"), ((), "n")])])], []),
         "members apart": ("decl", [("struct", "m", [(["int"], [((), "n")]), (["char"], [((), "k"), ((), "n")])])], []),
         "members of two": ("decl", [("struct", "m", [(["int"], [((), "n")]), ([("struct", "m2", [(["char"], [((), "n")])])], [((), "k")])])], [])}
WAYS = {"one block": lambda a, b: ([], [a, b]), "file scope": lambda a, b: ([a, b], []), "file and body": lambda a, b: ([a], [b]),
        "body and block": lambda a, b: ([], [a, ("cmpd", [b])]), "block then body": lambda a, b: ([], [("cmpd", [a]), b]),
        "two blocks": lambda a, b: ([], [("cmpd", [a]), ("cmpd", [b])]), "loop and body": lambda a, b: ([], [("for", a, NUL, NUL, ("cmpd", [b]))]),
        "loop then after": lambda a, b: ([], [("for", a, NUL, NUL, NUL), b]), "nested block": lambda a, b: ([], [("cmpd", [a, ("cmpd", [b])])])}
NUL = ("null",)


def redeclarations():
    for wn, w in WAYS.items():
        for an, a in KINDS.items():
            for bn, b in KINDS.items():
                g, l = w(a, b)
                if "typedef" in str(a) and wn.startswith("loop"):
                    continue
                yield ("%s" % "two declarations", g + [("func", ["void"], (("fn", ()),), "f", l + [U2(an, bn)])])
    for an, a in KINDS.items():
        yield ("two declarations", [("func", ["void"], (("fn", ((["long"], (), "n"),)),), "f", [a])])
        yield ("two declarations", [("func", ["void"], (("fn", ((["long"], (), "n"),)),), "f", [("cmpd", [a])])])
        yield ("two declarations", [a, ("func", ["void"], (("fn", ((["long"], (), "q"),)),), "n", [])])
        yield ("two declarations", [("func", ["void"], (("fn", ((["long"], (), "q"),)),), "n", []), a])
        yield ("two declarations", [("func", ["void"], (("fn", ((["long"], (), "q"),)),), "n", [a])])
    yield ("two declarations", [("func", ["void"], (("fn", ((["long"], (), "n"),)),), "n", [U])])
    yield ("two declarations", [("func", ["int"], (("fn", ()),), "n", [U]), ("func", ["void"], (("fn", ()),), "m", [U])])


def U2(a, b):
    return NUL


def numbered(exts):
    """every use becomes an assignment of its own constant, every object starts with its own constant"""
    n = [1000, 500]
    inits = {}

    def go(x):
        if x == U:
            n[0] += 1
            return ("expr", ("set", "n", n[0]))
        if isinstance(x, tuple) and x and x[0] == "decl":
            items = []
            for dv, name, init in x[2]:
                if not dv and name == "n":
                    n[1] += 1
                    init = ("k", n[1])
                    inits[n[1]] = ref_specs(World(), x[1])[1]
                items.append((dv, name, init))
            return ("decl", x[1], items)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return [go(x) for x in exts], inits


import re
IMM = re.compile(r"^\$(-?\d+)")


def stores(lines):
    """constant -> place it is written to, for constants written to memory; arguments: index -> place"""
    regs, out, args = {}, {}, {}
    label = None
    for l in lines:
        m = re.match(r"^(\S+): (variable|function)", l)
        if m:
            label = m.group(1)
            continue
        m = re.match(r"^\.(byte|word|long|quad) (-?\d+)", l)
        if m:
            out[int(m.group(2))] = label
            continue
        p = l.split(None, 1)
        if len(p) < 2 or ", " not in p[1]:
            continue
        dst, src = p[1].split(", ", 1)
        if p[0] == "ldarg":
            args[src.split(":")[0]] = dst
        k = IMM.match(src)
        r = re.match(r"^(r\d+)", src)
        val = int(k.group(1)) if k else regs.get(r.group(1)) if r else None
        d = re.match(r"^(r\d+)", dst)
        if p[0] == "load" and d:
            regs[d.group(1)] = val
        elif p[0] == "store" and val is not None:
            out.setdefault(val, dst)
        elif d:
            regs.pop(d.group(1), None)
    return out, args


def storage(R, kind, exts):
    """which object does the generated code touch?"""
    exts, inits = numbered(exts)
    ref = Ref()
    try:
        ref.prog(exts)
    except (Rej, Free):
        return
    what = show_prog(exts)
    r = Prog()
    r.cond = ("k", 1)
    try:
        for o in r.run_prog(exts):
            if o.srt is None:
                continue
            low = lower(r, o)
            if not low:
                raise Undecided("code generation does not return: %s" % why_dead(r))
            for lines, s in low:
                at, args = stores(lines)
                home = {d: at.get(k) for k, d in inits.items()}
                for d in (x[1] for x in ref.seen):
                    if d == "long" and d not in home:
                        home[d] = next(iter(args.values()), None)
                bad = None
                for i, x in enumerate(ref.seen):
                    got = at.get(1001 + i)
                    want = home.get(x[1])
                    if got is None or want is None:
                        raise Undecided("no plain store of use %d" % (i + 1))
                    if norm_place(got) != norm_place(want):
                        bad = "use %d writes %s, but its declaration (%s) has its storage at %s" % (i + 1, got, x[1], want)
                if bad:
                    R.bad(kind, "the code touches another declaration's object", what, bad)
                else:
                    R.ok(kind)
        R.saw(r.E.visited)
    except Undecided as e:
        R.unk(kind, what, e)


def norm_place(p):
    return re.sub(r":[a-z]+$", "", p).lstrip("@")


# ------------------------------------------------------------------ structs that share a tag
TAGPLACES = ["file", "body", "block", "inner", "for", "forbody", "late"]
SIZEOF = {"file": 3, "body": 21, "block": 40, "inner": 60, "for": 83, "forbody": 101, "late": 130}


class Tags:
    """builds the program: places that define struct n, with an object and a pointer; each use is an assignment of its own constant.
    expect: constant -> (name, path) where path says how the member is reached and in which struct"""

    def __init__(self, places, extra, compat=None):
        self.places, self.extra, self.compat = places, extra, compat
        self.tags, self.objs, self.expect, self.k = [], [], {}, 1000
        self.verdict = None

    def tag(self):
        return next((t for t in reversed(self.tags) if t), None)

    def enter(self):
        self.tags.append(None)
        self.objs.append([])

    def leave(self):
        self.tags.pop()
        self.objs.pop()

    def decl(self, place):
        out = []
        if place in self.places:
            ms = [(["char"], [((("arr", SIZEOF[place]),), "p")])]
            if "next" in self.extra:
                ms.append(([("struct", "n", None)], [((("ptr",),), "nx")]))
            ms.append((["int"], [((), "m")]))
            td = "typedef" in self.extra and place == self.places[0]
            if td:
                out.append(("decl", ["typedef", ("struct", "n", ms)], [((), "TN", None)]))
            else:
                out.append(("decl", [("struct", "n", ms)], [((), "v" + place, None), ((("ptr",),), "q" + place, None)]))
                self.objs[-1] += [("v" + place, "obj", place), ("q" + place, "ptr", place)]
            self.tags[-1] = place
            if td:
                self.td = place
        elif "refer" in self.extra and self.tag() and place != "for":
            out.append(("decl", [("struct", "n", None)], [((), "w" + place, None), ((("ptr",),), "r" + place, None)]))
            self.objs[-1] += [("w" + place, "obj", self.tag()), ("r" + place, "ptr", self.tag())]
        if "typedef" in self.extra and hasattr(self, "td") and place not in ("for",) and self.places[0] in ("file", "body"):
            init = None
            if "init" in self.extra and place != "file":
                self.k += 1
                init = [("s", "ab"), ("k", self.k)]
            out.append(("decl", [("tdname", "TN")], [((), "t" + place, init), ((("ptr",),), "s" + place, None)]))
            self.objs[-1] += [("t" + place, "obj", self.td), ("s" + place, "ptr", self.td)]
            if init:
                self.expect[self.k] = (("t" + place, "dot"), self.td)
        return out

    def uses(self):
        out = []
        vis = [o for sc in self.objs for o in sc]
        if self.compat is not None:
            n = self.compat
            ps, vs = [o for o in vis if o[1] == "ptr"], [o for o in vis if o[1] == "obj"]
            pairs = [(a, b) for a in ps for b in vs]
            if self.verdict is None and n[0] == 0 and n[1] < len(pairs):
                a, b = pairs[n[1]]
                self.verdict = a[2] == b[2]
                return [("expr", ("assign", ("use", a[0]), ("addr", ("use", b[0]))))]
            self.compat = (n[0] - 1, n[1])
            return []
        for name, kind, place in vis:
            how = ["dot", "next"] if kind == "obj" else ["arrow"]
            for h in how:
                if h == "next" and "next" not in self.extra:
                    continue
                self.k += 1
                e = ("arrow", ("dot", ("use", name), "nx"), "m") if h == "next" else (h, ("use", name), "m")
                out.append(("expr", ("assign", e, ("k", self.k))))
                self.expect[self.k] = ((name, h), place)
        return out

    def build(self):
        self.enter()
        top = self.decl("file")
        self.enter()
        body = self.decl("body") + self.uses()
        self.enter()
        blk = self.decl("block") + self.uses()
        self.enter()
        blk.append(("cmpd", self.decl("inner") + self.uses()))
        self.leave()
        blk += self.uses()
        self.leave()
        body.append(("cmpd", blk))
        body += self.uses()
        self.enter()
        d = self.decl("for")
        self.enter()
        fb = self.decl("forbody") + self.uses()
        self.leave()
        body.append(("for", d[0] if d else NUL, NUL, NUL, ("cmpd", fb)))
        self.leave()
        body += self.uses()
        if "body" not in self.places:
            body += self.decl("late")
            body += self.uses()
        self.leave()
        self.enter()
        g = self.uses()
        self.leave()
        return top + [("func", ["void"], (("fn", ()),), "f", body), ("func", ["void"], (("fn", ()),), "g", g)]

    def offsets(self, place):
        n = SIZEOF[place]
        if "next" in self.extra:
            n = (n + 7) // 8 * 8
            return n, n + 8
        return None, (n + 3) // 4 * 4


def tag_scenarios(tier):
    for n in range(1, 2 ** len(TAGPLACES)):
        pl = [p for i, p in enumerate(TAGPLACES) if n >> i & 1]
        if "late" in pl and "body" in pl:
            continue
        for extra in ((), ("next",), ("refer",), ("typedef",), ("typedef", "init"), ("next", "refer", "typedef")):
            if "typedef" in extra and pl[0] not in ("file", "body"):
                continue
            if tier != "thorough" and not (len(pl) == 2 or extra == () and (len(pl) == 1 or len(pl) == 3 and n % 3 == 0 or len(pl) == 6)):
                continue
            if tier != "thorough" and len(extra) == 3:
                continue
            yield ("members of structs that share a tag", (pl, extra, None))
        if len(pl) == 2 or tier == "thorough" and len(pl) == 3:
            for i in range(7):
                for j in range(9 if tier == "thorough" else 4):
                    if tier == "thorough" or (i + j + n) % 3 == 0:
                        yield ("structs that share a tag", (pl, ("refer",), (i, j)))


def mem_places(lines):
    """constant -> place (what the address is made of, offset)"""
    regs, out = {}, {}

    def place(x):
        x = x.split(":")[0]
        if x.startswith("*("):
            return regs.get(x[2:-1].split(":")[0])
        m = re.match(r"^M\[(-?\d+)\]", x)
        if m:
            return ("frame", -int(m.group(1)))
        if x.startswith("@"):
            return (x, 0)
        return None

    def value(x):
        m = IMM.match(x)
        if m:
            return int(m.group(1))
        if re.match(r"^r\d+", x):
            return regs.get(x.split(":")[0])
        a = place(x)
        return (("at", a), 0) if a is not None else None
    for l in lines:
        p = l.split(None, 1)
        if len(p) < 2 or ", " not in p[1]:
            continue
        a = p[1].split(", ")
        d = a[0].split(":")[0]
        if p[0] == "addr":
            regs[d] = place(a[1])
        elif p[0] == "add" and len(a) == 3:
            x, y = value(a[1]), value(a[2])
            if isinstance(x, int):
                x, y = y, x
            regs[d] = (x[0], x[1] + y) if isinstance(x, tuple) and isinstance(y, int) else None
        elif p[0] == "load":
            regs[d] = value(a[1])
        elif p[0] == "store":
            v = value(a[1])
            if isinstance(v, int):
                out.setdefault(v, []).append(place(a[0]))
        else:
            regs.pop(d, None)
    return out


def tags(R, kind, arg):
    t = Tags(*arg)
    exts = t.build()
    what = show_prog(exts)
    r = Prog()
    if arg[2] is not None and t.verdict is None:
        return
    try:
        outs = r.run_prog(exts)
        R.saw(r.E.visited)
        for o in outs:
            if arg[2] is not None:
                if (o.srt is not None) != t.verdict:
                    R.bad(kind, "accepted" if o.srt is not None else "rejected", what, "the structs are %s, but the assignment is %s" % (
                        "the same" if t.verdict else "different", "accepted" if o.srt is not None else "rejected"))
                else:
                    R.ok(kind)
                continue
            if o.srt is None:
                R.bad(kind, "valid program rejected", what, "rejected with %s" % (o.errs,))
                continue
            low = lower(r, o)
            if not low:
                raise Undecided("code generation does not return: %s" % why_dead(r))
            for lines, s in low:
                at = mem_places(lines)
                R_home, bad = {}, None
                # plain accesses say where an object is
                for phase in ("dot", "rest"):
                    for k, ((name, h), place) in t.expect.items():
                        if (h == "dot") != (phase == "dot"):
                            continue
                        got = at.get(k)
                        nx, m = t.offsets(place)
                        if not got or None in got or len(got) != 1:
                            raise Undecided("no plain store of %d: %s" % (k, got))
                        base, off = got[0]
                        if h == "dot":
                            w = (base, off - m)
                        elif isinstance(base, tuple) and base[0] == "at":
                            if off != m:
                                bad = bad or "%s (constant %d) reaches offset %s of its struct, where m is at offset %d" % (name, k, off, m)
                                continue
                            w = base[1] if h == "arrow" else (base[1][0], base[1][1] - nx)
                        else:
                            raise Undecided("%s is reached through %s" % (name, show(base)))
                        if name not in R_home:
                            if w in R_home.values():
                                bad = bad or "%s (constant %d) is taken to be where %s is" % (name, k, [x for x, y in R_home.items() if y == w])
                            R_home[name] = w
                        elif R_home[name] != w:
                            bad = bad or "m of %s is at %s in one place and at %s (constant %d) in another" % (name, R_home[name], w, k)
                # objects may not overlap: the next one begins behind the last member
                fr = sorted((w[1], n) for n, w in R_home.items() if w[0] == "frame")
                pl = {n: p for sc in [t.expect.values()] for (n, _), p in sc}
                for (a, n), (b, n2) in zip(fr, fr[1:]):
                    need_ = (t.offsets(pl[n])[1] + 4) if n[0] in "vwt" else 8
                    if a + need_ > b and scopes_meet(n, n2):
                        bad = bad or "%s (at %d, %d bytes) and %s (at %d) overlap" % (n, a, need_, n2, b)
                if bad:
                    R.bad(kind, "a member is looked up in another struct", what, bad)
                else:
                    R.ok(kind)
        if not outs:
            R.bad(kind, "never returns", what, why_dead(r))
    except Undecided as e:
        R.unk(kind, what, e)


def scopes_meet(a, b):
    chain = {"file": (), "body": ("body",), "late": ("body",), "block": ("body", "block"), "inner": ("body", "block", "inner"), "for": ("body", "for"),
             "forbody": ("body", "for", "forbody")}
    x, y = chain[a[1:]], chain[b[1:]]
    return x[:len(y)] == y or y[:len(x)] == x


def one(R, kind, exts):
    if "share a tag" in kind:
        return tags(R, kind, exts)
    if kind == "storage of a name":
        return storage(R, kind, exts)
    ref = Ref()
    try:
        ref.prog(exts)
        good = True
    except Rej:
        good = False
    except Free:
        return
    if ref.W.soft:
        return
    what = show_prog(exts)
    r = Prog()
    try:
        outs = r.run_prog(exts)
    except Undecided as e:
        R.unk(kind, what, e)
        return
    R.saw(r.E.visited)
    if not outs:
        R.bad(kind, "never returns", what, why_dead(r))
    for o in outs:
        if good and o.srt is None:
            R.bad(kind, "valid names rejected: %s" % (o.errs and str(o.errs[0]).split("'")[-1],), what, "rejected with %s" % (o.errs,))
        elif not good and o.srt is not None:
            R.bad(kind, "accepted, but a name is undeclared or declared twice", what, "C11 6.2.1, 6.7 forbid it")
        elif good:
            got = []
            observed(o.srt, got)
            want = [x for x in ref.seen]
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                R.bad(kind, "a use means another declaration", what, "use %d of %d is resolved to %s, expected %s" % (
                    i + 1, len(want), got[i] if i < len(got) else "nothing", want[i] if i < len(want) else "nothing"))
            else:
                R.ok(kind)
        else:
            R.ok(kind)
    if r.E.findings:
        R.bad(kind, "memory: %s" % (r.E.findings[0][0],), what, str(r.E.findings[0])[:300])


def run(R, tier):
    need("resolver_resolve_semantics")
    pmap(R, one, list(cases(tier)))

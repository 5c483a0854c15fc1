"""P16: declarations and initializers give every object its storage and its initial value."""
from rules.immc_common import *
from rules import immc_spec as S
from rules.p15 import where_of, cast, lit, leaf, INTS
from report import pmap
import re

META = {"explanation":
        "Abstract interpretation of the lowering of declarations, initializers and function definitions with real scope "
        "tables and opaque initializer expressions. The produced data directives (globals) or stores (locals) are "
        "interpreted as a byte layout and compared with the layout the C type requires: each scalar at the offset of its "
        "member or element, padding zero, total size equal to the size of the object; parameters, frame size and return "
        "label of function definitions likewise.",
        "assumptions": ["initializer trees that reach the lowering are the ones the first half of the check finds the resolver to build"]}


def align(d):
    if isinstance(d, str):
        return max(1, S.SIZE[d])
    if d[0] == "ptr":
        return 8
    if d[0] == "arr":
        return align(d[1])
    if d[0] == "enum":
        return 4
    if d[0] == "sstruct":
        return max(align(x) for _, x in d[1])


def up(n, a):
    return (n + a - 1) // a * a


def layout(d, strings=False):
    """-> size, [(offset, scalar type)]; character arrays are one part each if asked for"""
    if strings and isinstance(d, tuple) and d[0] == "arr" and d[1] == "char":
        return d[2], [(0, d)]
    if isinstance(d, tuple) and d[0] == "arr":
        n, l = layout(d[1], strings)
        return n * d[2], [(i * n + o, t) for i in range(d[2]) for o, t in l]
    if isinstance(d, tuple) and d[0] == "sstruct":
        off = 0
        out = []
        for _, t in d[1]:
            n, l = layout(t, strings)
            off = up(off, align(t))
            out += [(off + o, x) for o, x in l]
            off += n
        return up(off, align(d)), out
    return S.size(d), [(0, d)]


ST1 = ("sstruct", [("a", "int"), ("b", "char")])
ST2 = ("sstruct", [("a", "char"), ("b", "long"), ("c", "char"), ("d", "int")])
ST3 = ("sstruct", [("p", ("ptr", "char")), ("in", ST1), ("q", "char")])
ST4 = ("sstruct", [("a", ("arr", "char", 3)), ("b", ("arr", "int", 2)), ("c", "char")])
TYPES = INTS + [("enum", "E"), ("ptr", "int"), ("arr", "int", 3), ("arr", "char", 2), ("arr", ("arr", "long", 2), 2),
                ST1, ST2, ST3, ST4, ("arr", ST1, 2), ("arr", ST2, 2), ("arr", ST3, 2),
                ("sstruct", [("x", ("arr", ST1, 2)), ("y", "char")]), ("arr", ("arr", ST1, 2), 2)]


def tname(d):
    return d if isinstance(d, str) else re.sub(r"[\[\]()' ]", "", str(d)).replace(",", ".")


class Init:
    def __init__(self, L, mode):
        self.L, self.mode, self.n = L, mode, 0
        self.leaves = []

    def tree(self, d):
        L = self.L
        if isinstance(d, tuple) and d[0] == "arr":
            ch = [self.tree(d[1]) for _ in range(d[2])]
        elif isinstance(d, tuple) and d[0] == "sstruct":
            ch = [self.tree(t) for _, t in d[1]]
        else:
            self.n += 1
            nm = "e%d" % self.n
            if self.mode == "value":
                t = leaf(nm, d)
            elif self.mode == "converted":
                t = cast(d, leaf(nm, "int" if d != "int" else "char"))
            elif self.mode == "converted-constant":
                t = cast(d, lit(nm, "int" if d != "int" else "char"))
            elif self.mode == "constant-converted-twice":
                t = cast(d, cast("char" if d != "char" else "uint", lit(nm, "long")))
            else:
                t = lit(nm, d if isinstance(d, str) else "int" if d[0] == "enum" else "ulong")
            self.leaves.append(t)
            ch = [build(L, t)]
        self.n += 1
        return L.srt("init%d" % self.n, "SRT_INIT", None, ch)


def new_lower(local):
    L = Lower()
    L.E.maxrec = 40
    L.inline_nodes = {ev(k) for k in ("SRT_INIT", "SRT_IDENT_DECL", "SRT_STR_DECL", "SRT_INIT_DECL", "SRT_TAG_DECL",
                                      "SRT_DECL_LIST")}
    L.real_tables(local)
    return L


def decl(L, d, init):
    name = L.lab.text("v")
    id_ = L.srt("decl", "SRT_IDENT_DECL", d, [], ident_name=name)
    return L.srt("D", "SRT_INIT_DECL", None, [id_] + ([init] if init is not None else []))


def check_paths(R, rule, name, L, root, judge):
    try:
        outs = outcomes(L, root, L.run(root))
    except Undecided as e:
        R.unk(rule, name, e)
        return
    R.saw(L.E.visited)
    where = where_of(L)
    if L.E.terminated:
        why, s, nd = L.E.terminated[0]
        R.bad(rule, name, "%s:%d %s" % (nd.file, nd.line, where), "the compilation is aborted here (%s)" % (why,))
        return
    for k, f, l, fn, d, _ in L.E.findings:
        R.bad(rule, name, "%s:%d (%s)" % (f, l, fn), "%s: %s" % (k, d))
        return
    if not outs:
        R.unk(rule, name, "no path")
        return
    for o in outs:
        p = judge(o)
        p = [p] if isinstance(p, str) else list(p or [])
        p += o.probs
        if p:
            R.bad(rule, name, where, "%s\nproduced:\n%s" % ("\n".join(p), "\n".join("  " + x for x in o.lines)))
            return
    R.ok(rule, name)


def global_layout(lines, name="v"):
    """data directives -> (list of (offset, size, value), total) ; zero areas are left out"""
    if not lines or lines[0] != "%s: variable global" % name:
        return None, "the object is not introduced by a global variable label"
    off = 0
    out = []
    for l in lines[1:]:
        m = re.match(r"^\.(\w+) (.*)$", l)
        if not m:
            return None, "not a data directive: %s" % l
        k, v = m.groups()
        if k == "zero":
            if not v.isdigit():
                return None, "size of a zero area unknown"
            off += int(v)
        elif k == "str":
            out.append((off, None, v))
        else:
            n = {"byte": 1, "word": 2, "long": 4, "quad": 8}[k]
            out.append((off, n, v))
            off += n
    return (out, off), None


def one(R, name, kind, d, mode):
    rule = kind
    local = "local" in kind
    L = new_lower(local)
    if kind.endswith("-uninitialised"):
        root = decl(L, d, None)
        n, _ = layout(d)

        def judge(o):
            if local:
                return ["code is produced for an uninitialised local"] if o.lines else []
            g, p = global_layout(o.lines)
            if p:
                return p
            if g != ([], n):
                return "the object needs %d zero bytes" % n
        check_paths(R, rule, name, L, root, judge)
        return
    I = Init(L, mode)
    root = decl(L, d, I.tree(d))
    n, lay = layout(d)
    if local:
        off = up(n, 4)

        def judge(o):
            sp = S.Spec({})
            for (lo, t), tr in zip(lay, I.leaves):
                v = sp.value(tr)
                sp.emit("store", S.Raw("M[%d]" % (off - lo)), v)
            # order of the stores is free as long as the expressions are evaluated: compare in order
            if o.lines != sp.lines():
                return "required (object of %d bytes at frame offset %d):\n%s" % (n, off, "\n".join("  " + x for x in sp.lines()))
    else:
        def judge(o):
            g, p = global_layout(o.lines)
            if p:
                return p
            sp0 = S.Spec({})
            want = [(lo, S.size(t), sp0.value(tr).v) for (lo, t), tr in zip(lay, I.leaves)]
            if g != (want, n):
                return "required layout (offset, size, value): %s in %d bytes\nproduced layout: %s in %d bytes" % (want, n, g[0], g[1])
    check_paths(R, rule, name, L, root, judge)


def one_str(R, name, local):
    L = new_lower(local)
    d = ("arr", "char", 6)
    sl = L.lab.sym("sl", value=("in", "sltext"), size=6)
    lit_ = L.srt("lit", "SRT_SLITERAL_EXPR", d, [], sliteral=sl)
    init = L.srt("init", "SRT_INIT", None, [lit_])
    root = decl(L, d, init)

    def judge(o):
        want = ["str M[8], str(sl)"] if local else ["v: variable global", ".str str(sl)"]
        got = [re.sub(r"str\(.*\)", "str(sl)", x) if "sltext" in x or "sl" in x else x for x in o.lines]
        if got != want:
            return "required: %s" % want
    check_paths(R, "string-initializer", name, L, root, judge)


def one_strdecl(R, name):
    L = new_lower(False)
    d = ("arr", "char", 6)
    sl = L.lab.sym("sl", value=("in", "sltext"), size=6)
    lit_ = L.srt("lit", "SRT_SLITERAL_EXPR", d, [], sliteral=sl)
    init = L.srt("init", "SRT_INIT", None, [lit_])
    de = L.srt("decl", "SRT_STR_DECL", d, [], sliteral_id=9)
    root = L.srt("D", "SRT_INIT_DECL", None, [de, init])

    def judge(o):
        if len(o.lines) != 2 or o.lines[0] != ".SL9: variable global" or not o.lines[1].startswith(".str"):
            return "required: label .SL9 followed by the text"
    check_paths(R, "string-literal-object", name, L, root, judge)


def one_local_str_member(R, name):
    """a string member followed by another member"""
    L = new_lower(True)
    d = ("sstruct", [("s", ("arr", "char", 6)), ("k", "int")])
    sl = L.lab.sym("sl", value=("in", "sltext"), size=6)
    lit_ = L.srt("lit", "SRT_SLITERAL_EXPR", ("arr", "char", 6), [], sliteral=sl)
    i1 = L.srt("i1", "SRT_INIT", None, [lit_])
    i2 = L.srt("i2", "SRT_INIT", None, [build(L, leaf("e", "int"))])
    root = decl(L, d, L.srt("i0", "SRT_INIT", None, [i1, i2]))

    def judge(o):
        got = [re.sub(r"str\(.*\)", "str(sl)", x) for x in o.lines]
        want = ["str M[12], str(sl)", "<e>", "store M[4], v(e):sl"]
        if got != want:
            return "required: %s" % want
    check_paths(R, "string-initializer", name, L, root, judge)


def one_strs(R, name, d, local):
    """string literals as the initial values of the character arrays inside an object"""
    L = new_lower(local)
    k = [0]
    parts = []

    def tree(t):
        if isinstance(t, tuple) and t[0] == "arr" and t[1] == "char":
            k[0] += 1
            parts.append((k[0], t))
            sl = L.lab.sym("sl%d" % k[0], value=("in", "sltext%d" % k[0]), size=t[2])
            return L.srt("i%d" % k[0], "SRT_INIT", None, [L.srt("lit%d" % k[0], "SRT_SLITERAL_EXPR", t, [], sliteral=sl)])
        if isinstance(t, tuple) and t[0] in ("arr", "sstruct"):
            sub = [t[1]] * t[2] if t[0] == "arr" else [m for _, m in t[1]]
            kids = [tree(x) for x in sub]
            k[0] += 1
            return L.srt("i%d" % k[0], "SRT_INIT", None, kids)
        k[0] += 1
        parts.append((k[0], t))
        e = leaf("e%d" % k[0], t) if local else lit("c%d" % k[0], t)
        return L.srt("i%d" % k[0], "SRT_INIT", None, [build(L, e)])
    root = decl(L, d, tree(d))
    n, lay = layout(d, True)
    off = up(n, 4)
    arr = lambda t: isinstance(t, tuple) and t[0] == "arr"

    def judge(o):
        if local:
            got = []
            for x in o.lines:
                m = re.match(r"(str|store) M\[(-?\d+)\], (.*)$", x)
                if m:
                    got.append((m.group(1), int(m.group(2)), [w for w in re.findall(r"sl(?:text)?\d+|e\d+", m.group(3))][:1]))
            want = [("str" if arr(t) else "store", off - lo, [("sl%d" if arr(t) else "e%d") % i]) for (lo, t), (i, _) in zip(lay, parts)]
            if got != want:
                return "required writes: %s\nproduced writes: %s" % (want, got)
            return
        at, got = 0, []
        sizes = {"sl%d" % i: t[2] for i, t in parts if arr(t)}
        for x in o.lines[1:]:
            m = re.match(r"^\.(\w+) (.*)$", x)
            if not m:
                return "not a data directive: %s" % x
            w = re.findall(r"sl\d+", m.group(2))
            if m.group(1) == "zero":
                at += int(m.group(2))
            elif m.group(1) == "str":
                got.append((at, w[0]))
                at += sizes[w[0]]
            else:
                k = {"byte": 1, "word": 2, "long": 4, "quad": 8}[m.group(1)]
                got.append((at, k))
                at += k
        want = [(lo, "sl%d" % i if arr(t) else S.size(t)) for (lo, t), (i, _) in zip(lay, parts)]
        if (got, at) != (want, n):
            return "required layout: %s in %d bytes\nproduced layout: %s in %d bytes" % (want, n, got, at)
    check_paths(R, "string-initializer", name, L, root, judge)


def scope_view(E, s, v):
    """contents of the innermost scopes: list of {name: (kind, offset)}"""
    out = []
    while isinstance(v, tuple) and v[0] == "p":
        o = s.objs[v[1]]
        m = o.f.get(("symbol_map",))
        d = {}
        if isinstance(m, tuple) and m[0] == "p":
            for e in s.objs[m[1]].x:
                if e[0] in ("base", "removed"):
                    continue
                f = fields(freeze(E, s, e[1]))
                d[interp.pieces_text(e[0][1])] = (ename("SymbolType", f.get("type")), f.get("memory_offset"))
        out.append(d)
        v = o.f.get(("outer_scope",), 0)
    return out


def one_decl_symbol(R, name, d, local, isfn):
    L = new_lower(local)
    root = L.srt("decl", "SRT_IDENT_DECL", d, [], ident_name=L.lab.text("v"))

    def judge(o):
        v = scope_view(L.E, o.s, o.s.objs[("D", L.im)].f[("symbol_table",)])
        if o.lines:
            return "a declarator alone must not produce code"
        e = v[0].get("v")
        if e is None:
            return "the name is not defined in the current scope"
        if local and not isfn:
            n = layout(d)[0]
            if e != ("SYMBOL_MEM", up(n, 4)):
                return "a local object of %d bytes must get its own frame storage, has %s" % (n, e)
        elif e[0] != "SYMBOL_LABEL":
            return "a global (or a function) must be addressed by its name, has %s" % (e,)
    check_paths(R, "declared-storage", name, L, root, judge)


def one_locals(R, name, ds):
    """consecutive locals do not overlap"""
    L = new_lower(True)
    ch = []
    for i, d in enumerate(ds):
        ch.append(L.srt("decl%d" % i, "SRT_IDENT_DECL", d, [], ident_name=L.lab.text("v%d" % i)))
        ch[-1] = L.srt("D%d" % i, "SRT_INIT_DECL", None, [ch[-1]])
    root = L.srt("list", "SRT_DECL_LIST", None, ch)

    def judge(o):
        v = scope_view(L.E, o.s, o.s.objs[("D", L.im)].f[("symbol_table",)])[0]
        used = []
        tbl = o.s.objs[o.s.objs[("D", L.im)].f[("symbol_table",)][1]]
        top = tbl.f.get(("memory_nbytes",))
        for i, d in enumerate(ds):
            e = v.get("v%d" % i)
            if not e or e[0] != "SYMBOL_MEM":
                return "v%d has no frame storage" % i
            n = layout(d)[0]
            a, b = e[1] - n, e[1]
            if a < 0:
                return "v%d reaches outside the frame" % i
            for j, x, y in used:
                if a < y and x < b:
                    return "v%d (bytes %d..%d) overlaps v%d (bytes %d..%d)" % (i, a, b, j, x, y)
            used.append((i, a, b))
        if not isinstance(top, int) or top < max(b for _, _, b in used):
            return "frame size %s does not cover the locals" % (top,)
    check_paths(R, "locals-disjoint", name, L, root, judge)


def one_func(R, name, params, ret, nbody):
    L = Lower()
    L.E.maxrec = 40
    L.real_tables(False)
    im = L.lab.s.wobj(("D", L.im))
    gt = im.f[("symbol_table",)]
    L.lab.s.wobj(gt[1]).f[("memory_nbytes",)] = ("in", "left-over size")
    fd = ("fn", params, ret)
    de = L.srt("decl", "SRT_IDENT_DECL", fd, [], ident_name=L.lab.text("fun"))
    body = L.srt("body", "SRT_CMPD_STMT", None, [L.srt("b%d" % i, "SRT_EXPR_STMT") for i in range(nbody)])
    root = L.srt("F", "SRT_FUNC_DEF", None, [de, body])
    views = []
    L.on_child = lambda E, s, child: views.append((show(child), scope_view(E, s, s.objs[("D", L.im)].f[("symbol_table",)])))

    def judge(o):
        offs = []
        off = 0
        for p in params:
            off = up(off + S.size(p), 4)
            offs.append(off)
        probs = []
        last = "(mem %d)" % nbody if nbody else str(off)
        want = ["fun: function global", "enter -, $%s:q" % last]
        want += ["ldarg M[%d], arg[%d]:%s" % (offs[i], i, S.suf(p)) for i, p in enumerate(params)]
        want += ["<b%d return=L1>" % i for i in range(nbody)]
        want += ["L1:", "leave -, $%s:q" % last]
        if o.lines != want:
            probs.append("required:\n%s" % "\n".join("  " + x for x in want))
        for ch, v in views:
            if len(v) != 2:
                probs.append("the body is not lowered in one scope inside the file scope")
                break
            if v[1].get("fun", ("",))[0] != "SYMBOL_LABEL":
                probs.append("the function's own name is not known in its body")
            for i, p in enumerate(params):
                if v[0].get("p%d" % i) != ("SYMBOL_MEM", offs[i]):
                    probs.append("parameter p%d is not known in the body at its frame offset" % i)
        after = scope_view(L.E, o.s, o.s.objs[("D", L.im)].f[("symbol_table",)])
        if len(after) != 1 or set(after[0]) != {"fun"}:
            probs.append("the file scope is not restored after the function")
        o.probs = [p for p in o.probs if "return_label_id" not in p]
        return probs
    check_paths(R, "function-definition", name, L, root, judge)


def one_seq(R, name, kind, n):
    L = Lower()
    root = L.srt("S", kind, None, [L.srt("s%d" % i, "SRT_INIT_DECL") for i in range(n)])

    def judge(o):
        if o.lines != ["<s%d>" % i for i in range(n)]:
            return "required: the code of all parts, once each, in source order"
    check_paths(R, "sequence", name, L, root, judge)


def dispatch(R, name, what, *a):
    {"obj": one, "str": one_str, "strdecl": one_strdecl, "strmember": one_local_str_member, "strs": one_strs, "sym": one_decl_symbol,
     "locals": one_locals, "func": one_func, "seq": one_seq, "init": one_init}[what](R, name, *a)


def cases(tier):
    for d in TYPES:
        for k in ("global", "local"):
            yield "%s/%s/none" % (k, tname(d)), "obj", k + "-object-uninitialised", d, None
            for m in (("constant", "converted-constant", "constant-converted-twice") if k == "global" else
                      ("value", "constant", "converted", "converted-constant")):
                if isinstance(d, tuple) and d[0] == "ptr" and m == "constant":
                    m = "converted-constant"
                yield "%s/%s/%s" % (k, tname(d), m), "obj", k + "-object-initial-value", d, m
    yield "string/global", "str", False
    yield "string/local", "str", True
    yield "string/member", "strmember"
    yield "string/literal", "strdecl"
    c3, c6 = ("arr", "char", 3), ("arr", "char", 6)
    for d in [("arr", c3, 2), ("arr", c6, 3), ("arr", ("arr", c3, 2), 2), ("sstruct", [("a", c3), ("b", c6)]), ("sstruct", [("k", "int"), ("a", c3), ("l", "long")]),
              ("arr", ("sstruct", [("a", c3), ("k", "int")]), 2), ("sstruct", [("t", ("arr", c3, 2)), ("k", "char"), ("u", c6)]),
              ("sstruct", [("q", ("sstruct", [("a", c6), ("b", "char")])), ("z", c3)])]:
        for local in (False, True):
            yield "strings inside/%s/%s" % ("local" if local else "global", tname(d)), "strs", d, local
    for d in TYPES + [("fn", ["int"], "int")]:
        for local in (False, True):
            yield "declarator/%s/%s" % ("local" if local else "global", tname(d)), "sym", d, local, d[0] == "fn"
    sets = [["char", "int", "char"], ["long", "char", "long"], [ST1, "char", ST2], [("arr", "char", 3), "int", ("arr", "long", 2)],
            [ST3, ST4, "char", ("arr", ST1, 3)]]
    for i, ds in enumerate(sets):
        yield "locals/%d" % i, "locals", ds
    for ps in ([], ["int"], ["char", "long", "int"], ["int"] * 6, ["int", "char", "long", "uint", ("ptr", "int"), "char", "int", "long"]):
        for ret in ("int", "void"):
            for nb in (0, 1, 3):
                yield "function/%d params/%s/%d parts" % (len(ps), ret, nb), "func", ps, ret, nb
    for k in ("SRT_TRAS_UNIT", "SRT_DECL_LIST"):
        for n in (0, 1, 2, 4):
            yield "sequence/%s/%d" % (k, n), "seq", k, n


def run(R, tier):
    pmap(R, dispatch, list(cases(tier)) + list(init_items()))


# ------------------------------------------------------------------ the initializer tree the semantic stage hands over
def one_init(R, name, d, i, local):
    from rules import init_ref as I
    kind = "initializer-of-each-subobject"
    try:
        e, outs, r, what = I.run_init(d, i, (), local)
    except Undecided as x:
        R.unk(kind, name, x)
        return
    R.saw(r.E.visited)
    if e[0] == "free":
        return
    if not outs:
        R.bad(kind, "compilation stops on a valid initializer" if e[0] == "acc" else "compilation stops", what, I.why_dead(r))
    for o in outs:
        if e[0] == "rej":
            if o.srt is not None:
                R.bad(kind, "an initializer that does not fit its object is accepted", what, "C11 6.7.9")
            else:
                R.ok(kind)
            continue
        if o.srt is None:
            R.bad(kind, "a valid initializer is rejected", what, "rejected with %s" % (o.errs,))
            continue
        nodes = I.decl_nodes(o.srt)
        if isinstance(nodes, str) or len(nodes) != 1 or nodes[0][2] is None:
            R.bad(kind, "the initializer is lost", what, str(nodes)[:200])
            continue
        got = I.tree_of(nodes[0][2])
        if got != e[1]:
            R.bad(kind, "a subobject gets another value", what, "resolved to %s\nexpected    %s" % (got, e[1]))
        else:
            R.ok(kind)


def init_items():
    from rules import init_ref as I
    for d, i in I.init_cases():
        for local in (True,) if not isinstance(d, str) else (True, False):
            yield "%s = %s" % (tname(d), I.show_init(i)), "init", d, i, local

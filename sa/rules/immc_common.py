"""Analysis of the lowering stage: which intermediate code does each syntax node produce?"""
from lab import *
import interp
from rules import immc_spec as S

ROOT = "immcgen_generate_immcode"


class Lower:
    """one root analysis of the lowering entry point"""

    def __init__(self, max_states=3000):
        self.P = prog()
        need(ROOT)
        self.E = Engine(self.P, max_states=max_states)
        self.E.maxrec = 8
        self.s = State()
        self.lab = Lab(self.E, self.s)
        self.E.nonnull = lambda t: t[0] in ("in", "ereg")
        self.depth = 0
        self.inline_nodes = set()
        self.E.models[ROOT] = self.model
        # abstract generator state
        L = self.lab
        L.sym("symtab")
        L.sym("tagtab")
        self.im = L.sym("gen", next_reg_id=("nreg", 0), label_id=("nlab", 0), expr_reg=("ereg", 0),
                        expr_reg_suffix=("esuf", 0), continue_label_id=("in", "CONT"), break_label_id=("in", "BRK"),
                        return_label_id=("in", "RET"), default_label_id=("in", "DEF"),
                        initialized_dtype=0, initialized_offset=-1, symbol_table=("in", "symtab"),
                        tag_table=("in", "tagtab"))
        self.node_names = {}
        self.symbols = {}          # name -> "label" | memory offset
        self.tags = {}             # name -> abstract struct type
        self.E.models["symboltable_search"] = self.m_symsearch
        self.E.models["tagtable_search"] = self.m_tagsearch
        self.real = False
        self.on_child = None
        self.regs_at = []          # (child, next_reg_id) at each child call

    def m_symsearch(self, E, s, a, node):
        if self.real:
            return None
        t = interp.pieces_text(interp.text_of(E, s, a[1]))
        if t not in self.symbols:
            raise Undecided("lookup of %r" % (a[1],))
        kind = self.symbols[t]
        h = E.new_heap(s, "heap", None, None, "symbol")
        o = s.objs[h]
        o.f[("name",)] = ("s", t)
        if kind == "label":
            o.f[("type",)] = ev("SYMBOL_LABEL")
            o.f[("memory_offset",)] = -1
        else:
            o.f[("type",)] = ev("SYMBOL_MEM")
            o.f[("memory_offset",)] = kind
        o.f[("dtype",)] = ("in", "dtype of " + t)
        return [(("p", h, ()), s)]

    def m_tagsearch(self, E, s, a, node):
        if self.real:
            return None
        t = interp.pieces_text(interp.text_of(E, s, a[1]))
        if t not in self.tags:
            raise Undecided("tag lookup of %r" % (a[1],))
        return [(self.tags[t], s)]

    def real_tables(self, local):
        """use real, empty scope tables (global, or one inside it)"""
        self.real = True
        st = self.lab.call("new_symboltable")
        tt = self.lab.call("new_tagtable")
        if local:
            st = self.lab.call("symboltable_enter_scope", st)
            tt = self.lab.call("tagtable_enter_scope", tt)
        o = self.lab.s.wobj(("D", self.im))
        o.f[("symbol_table",)] = st
        o.f[("tag_table",)] = tt

    # ---- inputs
    def srt(self, name, kind, dtype=None, children=(), **extra):
        d = self.lab.dt(dtype) if dtype is not None else 0
        f = dict(type=ev(kind), dtype=d, children=self.lab.vec(children, "t_srt"), ident_name=0, sliteral_id=-1,
                 iliteral=0, sliteral=0)
        f.update(extra)
        return self.lab.sym(name, **f)

    def leaf(self, name, dtype="int"):
        """an operand whose own code is opaque"""
        return self.srt(name, "SRT_CALL_EXPR", dtype)

    def ilit(self, name, dtype="int", value=None, litty=None):
        lt = {"char": "INTEGER_INT", "int": "INTEGER_INT", "uint": "INTEGER_UNSIGNED_INT", "long": "INTEGER_LONG",
              "ulong": "INTEGER_UNSIGNED_LONG", "llong": "INTEGER_LONGLONG", "ullong": "INTEGER_UNSIGNED_LONGLONG",
              "enum": "INTEGER_INT"}[litty or dtype]
        un = "UNSIGNED" in lt
        v = ("val", name) if value is None else value
        S.LITTY[name] = dtype
        il = self.lab.call("new_unsigned_iliteral" if un else "new_signed_iliteral", ev(lt), v)
        return self.srt(name, "SRT_ILITERAL_EXPR", dtype, (), iliteral=il)

    # ---- the recursive entry: root inlined, children opaque
    def model(self, E, s, a, node):
        if self.depth == 0:
            self.depth = 1
            return None
        (loc, s), = E.deref(s, a[0], node)
        oid = loc[0]
        child = E.read(s, (oid, ("srt",)), None, node)
        if isinstance(child, int):
            E.finding(s, "null-deref", node, "code generated for a missing child")
            return E.dead(s, "null-deref", node)
        kd = s.objs[("D", child)].f.get(("type",)) if ("D", child) in s.objs else None
        if kd in self.inline_nodes:
            return None
        if self.on_child:
            self.on_child(E, s, child)
        n = s.fresh("gen") + 1
        nreg = strip(E.read(s, (oid, ("next_reg_id",)), None, node))
        nlab = strip(E.read(s, (oid, ("label_id",)), None, node))
        ctx = tuple((f, strip(E.read(s, (oid, (f,)), None, node)))
                    for f in ("continue_label_id", "break_label_id", "return_label_id"))
        extra = []
        for f in ("initialized_dtype", "initialized_offset"):
            extra.append(freeze(E, s, E.read(s, (oid, (f,)), None, node)))
        cv = E.read(s, (oid, ("case_label_values",)), None, node)
        dl = E.read(s, (oid, ("default_label_id",)), None, node)
        scope = tuple(freeze_scope(E, s, E.read(s, (oid, (f,)), None, node)) for f in ("symbol_table", "tag_table"))
        o = s.wobj(oid)
        dto = E.read(s, (("D", child), ("dtype",)), None, node) if ("D", child) in s.objs else 0
        void = False
        if isinstance(dto, tuple) and dto[0] == "p":
            void = s.objs[dto[1]].f.get(("type",)) == ev("DTYPE_VOID")
        kind = s.objs[("D", child)].f.get(("type",)) if ("D", child) in s.objs else None
        o.f[("next_reg_id",)] = ("nreg", n)
        o.f[("label_id",)] = ("nlab", n)
        if isinstance(kind, int) and kind >= ev("SRT_ASSIGN_EXPR"):
            if void:
                o.f[("expr_reg",)] = 0
                o.f[("expr_reg_suffix",)] = ev("IMMC_SUFFIX_NONE")
            else:
                rid = ("rid", strip(child), n)
                nb, un = dt_info(E, s, dto, node)
                h = E.new_heap(s, "heap", None, None, "register of operand")
                s.objs[h].f[("reg_id",)] = rid
                s.objs[h].f[("is_unsigned",)] = un
                o = s.wobj(oid)
                o.f[("expr_reg",)] = ("p", h, ())
                o.f[("expr_reg_suffix",)] = nb
        else:
            o.f[("expr_reg",)] = ("ereg", n)
            o.f[("expr_reg_suffix",)] = ("esuf", n)
        # a body may register case/default labels of the innermost switch
        if isinstance(cv, tuple) and cv[0] == "p":
            co = s.wobj(cv[1])
            if not any(p[0] == "ext" for p in co.x):
                co.x = co.x + (("ext", ("cases", n)),)
        if isinstance(dl, int):
            o = s.wobj(oid)
            o.f[("default_label_id",)] = ("defl", n)
        if self.real:
            tb = E.read(s, (oid, ("symbol_table",)), None, node)
            if isinstance(tb, tuple) and tb[0] == "p":
                s.wobj(tb[1]).f[("memory_nbytes",)] = ("mem", n)
        code = ("code", strip(child), ctx, tuple(extra), scope, n, nreg, nlab)
        h = E.new_heap(s, "vec", None, (("ext", code),), "generated")
        s.objs[h].f[("t_item",)] = ("p", ("G", None, "t_immc"), ())
        return [(("p", h, ()), s)]

    def run(self, root):
        E, s = self.E, self.lab.s
        s.wobj(("D", self.im)).f[("srt",)] = root
        self.depth = 0
        self.s0 = s.fork()
        E.entry_callees.clear()
        return E.call(("fn", ROOT, None), [self.im], s, FAKE)


def dt_info(E, s, dto, node):
    """suffix and signedness a value of this data type is held in (expected of any opaque operand)"""
    if isinstance(dto, tuple) and dto[0] == "p":
        k = ename("DTypeType", s.objs[dto[1]].f.get(("type",)))
        suf = {"DTYPE_CHAR": "BYTE", "DTYPE_INT": "LONG", "DTYPE_UNSIGNED_INT": "LONG", "DTYPE_ENUM": "LONG",
               "DTYPE_VOID": "NONE", "DTYPE_STRUCT": "NONE", "DTYPE_ARRAY": "NONE", "DTYPE_FUNCTION": "NONE"}.get(k, "QUAD")
        return ev("IMMC_SUFFIX_" + suf), int(k.startswith("DTYPE_UNSIGNED"))
    return ("esuf", "?"), ("euns", "?")


def freeze_scope(E, s, v):
    """depth of a scope chain above the given root table"""
    d = 0
    while isinstance(v, tuple) and v[0] == "p":
        d += 1
        o = s.objs[v[1]]
        v = o.f.get(("outer_scope",), 0)
        if d > 5:
            break
    return (d, strip(v) if isinstance(v, tuple) else v)


# ------------------------------------------------------------------ canonical code sequences
class Canon:
    """renders abstract code vectors with registers/labels named by first use"""

    def __init__(self):
        self.regs = {}
        self.labels = {}
        self.probs = []

    def label(self, pieces, isdef=False):
        t = pieces[1] if pieces and pieces[0] == "text" else pieces
        if len(t) == 2 and t[0] == ".L" and t[1][0] == "dec":
            k = t[1][2]
            if k in (("in", "CONT"), ("in", "BRK"), ("in", "RET"), ("in", "DEF")):
                return k[1]
            if isinstance(k, tuple) and k[0] == "deref" or "cases" in repr(k):
                return "case-label"
            if k not in self.labels:
                self.labels[k] = "L%d" % (len(self.labels) + 1)
            return self.labels[k]
        if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == "str" and isinstance(t[0][1], tuple):
            # name of the label that ends the code of a child
            x = t[0][1]
            if x[0] == "fld" and x[1][0] == "fld" and x[1][1][0] == "last" and x[1][1][1][0] == "code":
                return "end(%s)" % show(x[1][1][1][1])
        return "".join(p if isinstance(p, str) else "<%s>" % show(p) for p in t)

    def regid(self, k):
        if isinstance(k, tuple) and k[0] == "rid":
            return "v(%s)" % show(k[1])
        if k not in self.regs:
            self.regs[k] = "r%d" % (len(self.regs) + 1)
        return self.regs[k]

    def ope(self, fz):
        if fz == 0:
            return None
        f = fields(fz)
        if "type" not in f:
            return "?%s" % show(fz)
        t = ename("ImmcOpeType", f["type"])
        suf = {"IMMC_SUFFIX_NONE": "", "IMMC_SUFFIX_BYTE": "b", "IMMC_SUFFIX_WORD": "w", "IMMC_SUFFIX_LONG": "l",
               "IMMC_SUFFIX_QUAD": "q"}.get(ename("ImmcSuffix", f["suffix"]), "?%s" % show(f["suffix"]))
        if t in ("IMMC_OPERAND_REG", "IMMC_OPERAND_ARG", "IMMC_OPERAND_PTR"):
            r = fields(f["reg"])
            rid = r.get("reg_id", ("fld", f["reg"], "reg_id"))
            un = r.get("is_unsigned")
            sg = {0: "s", 1: "u"}.get(un, "?%s" % show(un))
            if t == "IMMC_OPERAND_REG":
                return "%s:%s%s" % (self.regid(rid), sg, suf)
            if t == "IMMC_OPERAND_ARG":
                return "arg[%s]:%s" % (show(rid), suf)
            return "*(%s)" % self.regid(rid)
        if t == "IMMC_OPERAND_MEM":
            return "M[%s]" % show(f["mem_offset"])
        if t == "IMMC_OPERAND_LABEL":
            return "@" + self.label(f["label_name"])
        if t == "IMMC_OPERAND_INT":
            return "$%s:%s" % (ilit_show(f["iliteral"], {"b": 8, "w": 16, "l": 32}.get(suf, 64)), suf)
        if t == "IMMC_OPERAND_STR":
            return "str(%s)" % show(f["sliteral"])
        return t

    def piece(self, p):
        if p[0] == "one":
            f = fields(p[1])
            if "type" not in f:
                return "?%s" % show(p[1])
            t = ename("ImmcType", f["type"])
            if t == "IMMC_INST":
                i = fields(f["inst"])
                nm = ename("ImmcInstType", i["type"])
                nm = nm[len("IMMC_INST_"):].lower() if isinstance(nm, str) else "?%s" % show(nm)
                ops = [self.ope(i["dst"]), self.ope(i["fst_src"]), self.ope(i["snd_src"])]
                while ops and ops[-1] is None:
                    ops.pop()
                return (nm + " " + ", ".join("-" if o is None else o for o in ops)).strip()
            if t == "IMMC_LABEL":
                l = fields(f["label"])
                k = ename("ImmcLabelType", l["type"])
                v = ename("ImmcVisibility", l["visibility"])
                nm = self.label(l["name"], True)
                if k == "IMMC_LABEL_NORMAL":
                    return nm + ":" + ("" if v == "IMMC_VIS_NONE" else v)
                return "%s: %s %s" % (nm, k[len("IMMC_LABEL_"):].lower(), v[len("IMMC_VIS_"):].lower())
            if t == "IMMC_DATA":
                d = fields(f["data"])
                k = ename("ImmcDataType", d["type"])[len("IMMC_DATA_"):].lower()
                if d.get("iliteral", 0) != 0:
                    return ".%s %s" % (k, ilit_show(d["iliteral"], {"byte": 8, "word": 16, "long": 32}.get(k, 64)))
                return ".%s str(%s)" % (k, show(d.get("sliteral")))
        if p[0] == "ext":
            return self.code(p[1])
        if p[0] == "loop":
            alts = []
            for facts, body, evs in p[2]:
                alts.append(" ; ".join(self.piece(x) for x in body))
            return "repeat{%s}" % " | ".join(sorted(alts))
        return "?%s" % show(p)

    def code(self, c):
        if not (isinstance(c, tuple) and c[0] == "code"):
            return "codes(%s)" % show(c)
        ctx = dict(c[2])
        out = []
        for f, dflt, nm in (("continue_label_id", ("in", "CONT"), "continue"), ("break_label_id", ("in", "BRK"), "break"),
                            ("return_label_id", ("in", "RET"), "return")):
            if ctx[f] != dflt:
                out.append("%s=%s" % (nm, self.label(("text", (".L", ("dec", "d", ctx[f]))))))
        return "<%s%s>" % (show(c[1]), (" " + " ".join(out)) if out else "")

    def seq(self, fz):
        if not (isinstance(fz, tuple) and fz and fz[0] == "vec"):
            return ["?%s" % show(fz)]
        return [self.piece(p) for p in fz[1]]


def ilit_show(fz, width=64):
    f = fields(fz)
    if "type" not in f:
        return "lit(%s)" % show(fz)
    t = ename("IntegerLiteralType", f["type"])
    un = isinstance(t, str) and "UNSIGNED" in t
    v = f.get("unsigned_value") if un else f.get("signed_value")
    chain = []
    while isinstance(v, tuple) and v[0] == "trunc" and isinstance(v[1], int):
        chain.append((v[1], bool(v[2])))
        v = v[3]
    if isinstance(v, tuple) and v[0] == "val" and v[1] in S.LITTY:
        return S.lit_value(v[1], list(reversed(chain)), width)
    for n, sg in reversed(chain):
        v = ("trunc", n, sg, v)
    return show(v)


# ------------------------------------------------------------------ trees -> abstract inputs, outcomes
def build(L, t):
    """spec tree -> abstract syntax node"""
    if t[0] == "leaf":
        return L.leaf(t[1], t[2])
    if t[0] == "lit":
        return L.ilit(t[1], t[2], t[3] if len(t) > 3 else None)
    if t[0] == "cast":
        return L.srt(t[3] if len(t) > 3 else "cast", "SRT_CAST_EXPR", t[1], [build(L, t[2])])
    if t[0] == "id":
        return L.srt(t[1], "SRT_IDENT_EXPR", t[2], [], ident_name=L.lab.text(t[1]))
    if t[0] == "stmt":
        return L.srt(t[1], t[2], None, [build(L, c) for c in (t[3] if len(t) > 3 else [])])
    x = t[5] if len(t) > 5 else {}
    ch = [build(L, c) for c in t[3]]
    extra = {}
    if t[1] == "SRT_CALL_EXPR" and "args" in x:
        ch.append(L.srt("args", "SRT_ARG_LIST", None, [build(L, c) for c in x["args"]]))
    if t[1] == "SRT_IDENT_EXPR":
        extra["ident_name"] = L.lab.text(x["name"])
    if t[1] == "SRT_STR_EXPR":
        extra["sliteral_id"] = x["id"]
    if t[1] == "SRT_TOMEMBER_EXPR":
        ch.append(L.srt("member", "SRT_IDENT_EXPR", None, [], ident_name=L.lab.text(x["member"])))
    if t[1] == "SRT_ILITERAL_EXPR":
        return L.ilit(t[4], t[2])
    return L.srt(t[4], t[1], t[2], ch, **extra)


class Outcome:
    pass


def outcomes(L, root, rs):
    out = []
    for v, s in rs:
        o = Outcome()
        C = Canon()
        fz = freeze(L.E, s, v)
        o.lines = C.seq(fz)
        im = s.objs[("D", L.im)].f
        r = im.get(("expr_reg",))
        o.result = None
        if isinstance(r, tuple) and r[0] == "p":
            f = fields(freeze(L.E, s, r))
            sf = {"IMMC_SUFFIX_NONE": "", "IMMC_SUFFIX_BYTE": "b", "IMMC_SUFFIX_WORD": "w", "IMMC_SUFFIX_LONG": "l",
                  "IMMC_SUFFIX_QUAD": "q"}.get(ename("ImmcSuffix", im.get(("expr_reg_suffix",))), "?")
            o.result = "%s:%s%s" % (C.regid(f.get("reg_id")), {0: "s", 1: "u"}.get(f.get("is_unsigned"), "?"), sf)
        elif r == 0:
            o.result = "void"
        else:
            o.result = "unchanged"
        o.probs = []
        o.children = [p[1] for p in fz[1] if p[0] == "ext" and p[1][0] == "code"] if fz[0] == "vec" else []
        # state of the generator must be restored
        for k, want in (("srt", root), ("continue_label_id", ("in", "CONT")), ("break_label_id", ("in", "BRK")),
                        ("return_label_id", ("in", "RET")),
                        ("symbol_table", ("in", "symtab")), ("tag_table", ("in", "tagtab"))):
            if L.real and k.endswith("_table"):
                continue
            if (k,) in im and strip(im[(k,)]) != strip(want):
                o.probs.append("generator field for '%s' is not restored (now %s)" % (k, show(im[(k,)])))
        o.probs += discipline(L, fz, im)
        o.facts = s.facts
        o.s = s
        o.fz = fz
        out.append(o)
    return out


def key_parts(k):
    """register / label key -> (generation, offset)"""
    c, d = interp.lin_parts(k)
    if len(d) == 1:
        (t, n), = d.items()
        if n == 1 and isinstance(t, tuple) and t[0] in ("nreg", "nlab"):
            return t[1], c
    return None


def discipline(L, fz, im):
    """every number taken for a register or label was not handed out before and is not handed out again"""
    probs = []
    if not (isinstance(fz, tuple) and fz[0] == "vec"):
        return probs
    used = {"nreg": {}, "nlab": {}}
    at = {"nreg": {}, "nlab": {}}

    def rec(x):
        if isinstance(x, tuple):
            p = None
            if x and x[0] in ("lin", "nreg", "nlab"):
                c, d = interp.lin_parts(x)
                if len(d) == 1:
                    (t, n), = d.items()
                    if n == 1 and isinstance(t, tuple) and t[0] in used:
                        used[t[0]].setdefault(t[1], set()).add(c)
                        return
            if x and x[0] == "code":
                g = x[5]
                for kind, v in (("nreg", x[6]), ("nlab", x[7])):
                    at[kind][g] = v
                return
            for y in x:
                rec(y)
    for piece in fz[1]:
        if piece[0] == "one" or piece[0] == "loop":
            rec(piece)
        else:
            rec(piece)
    at["nreg"]["end"] = strip(im.get(("next_reg_id",)))
    at["nlab"]["end"] = strip(im.get(("label_id",)))
    for kind, word in (("nreg", "register"), ("nlab", "label")):
        lim = {}
        for g, v in at[kind].items():
            c, d = interp.lin_parts(v)
            if len(d) == 1 and v != -1:
                (t, n), = d.items()
                lim.setdefault(t[1], []).append(c)
        for g, offs in used[kind].items():
            top = max(offs)
            if min(offs) <= 0:
                probs.append("%s number not advanced before use (offset %d)" % (word, min(offs)))
            m = lim.get(g)
            if m is not None and top > max(m):
                probs.append("%s number %d of step %s is handed out again later" % (word, top, g))
    return probs

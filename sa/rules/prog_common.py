"""Whole translation units in the semantic stage: statements, scopes and declarations inline, other expressions opaque."""
from rules.decl_common import *

INLINE = ["AST_TRAS_UNIT", "AST_FUNC_DEF", "AST_DECL", "AST_CMPD_STMT", "AST_CASE_STMT", "AST_DEFAULT_STMT", "AST_CONTINUE_STMT",
          "AST_BREAK_STMT", "AST_RET_STMT", "AST_EXPR_STMT", "AST_NULL_STMT", "AST_IF_STMT", "AST_SWITCH_STMT", "AST_WHILE_STMT",
          "AST_FOR_STMT", "AST_IDENT_EXPR", "AST_SIZEOF_EXPR", "AST_MEMBER_EXPR", "AST_TOMEMBER_EXPR", "AST_STRING_EXPR", "AST_CALL_EXPR", "AST_ASSIGN_EXPR", "AST_ADDR_EXPR"]


class Prog(DRes):
    """program spec -> abstract run of resolver_resolve_semantics
    external: ("decl", specs, items) | ("func", specs, derivations, name, [statements])"""

    def __init__(self, max_states=3000):
        DRes.__init__(self, "resolver_resolve_semantics", max_states)
        o = self.obj()
        o.f[("trans_unit_srt",)] = 0
        o.f[("scope_srt",)] = 0
        self.inline_kinds = set(INLINE)
        self.cond = "x"

    def expr(self, e):
        """'x' opaque int | ('use', name) | ('k', value) | ('sizeof', specs) | ('dot', e, m) | Ok/Fail"""
        if e == "x":
            return self.part(self.fresh("e"), Ok("SRT_ADD_EXPR", "int"), "AST_ADD_EXPR")
        if isinstance(e, (Ok, Fail)):
            return self.part(self.fresh("e"), e, "AST_ADD_EXPR")
        if e[0] == "use":
            return self.ast(self.fresh(), "AST_IDENT_EXPR", (), ident_name=self.lab.text(e[1]))
        if e[0] == "k":
            return self.const(self.fresh("k"), e[1])
        if e[0] == "set":
            return self.ast(self.fresh(), "AST_ASSIGN_EXPR", [self.expr(("use", e[1])), self.expr(("k", e[2]))])
        if e[0] == "sizeof":
            tn = self.ast(self.fresh(), "AST_TYPE_NAME", [self.a_specs(e[1], "AST_SPEC_QUAL_LIST"), self.a_declor((), None)])
            return self.ast(self.fresh(), "AST_SIZEOF_EXPR", [tn])
        if e[0] == "dot":
            m = self.ast(self.fresh(), "AST_IDENT_EXPR", (), ident_name=self.lab.text(e[2]))
            return self.ast(self.fresh(), "AST_MEMBER_EXPR", [self.expr(e[1]), m])
        if e[0] == "arrow":
            m = self.ast(self.fresh(), "AST_IDENT_EXPR", (), ident_name=self.lab.text(e[2]))
            return self.ast(self.fresh(), "AST_TOMEMBER_EXPR", [self.expr(e[1]), m])
        if e[0] == "addr":
            return self.ast(self.fresh(), "AST_ADDR_EXPR", [self.expr(e[1])])
        if e[0] == "assign":
            return self.ast(self.fresh(), "AST_ASSIGN_EXPR", [self.expr(e[1]), self.expr(e[2])])
        if e[0] == "str":
            sl = self.lab.call("new_sliteral", self.lab.text(e[1]), len(e[1]) + 1)
            return self.ast(self.fresh(), "AST_STRING_EXPR", (), sliteral=sl)
        raise ValueError(e)

    def const(self, name, v):
        if isinstance(v, tuple) and v[0] in ("use", "sizeof"):
            return self.expr(v)
        return DRes.const(self, name, v)

    def a_init(self, i):
        if isinstance(i, tuple) and i[0] in ("use", "k", "sizeof", "dot", "str", "arrow", "addr", "assign") or i == "x":
            return self.expr(i)
        return DRes.a_init(self, i)

    def decl(self, specs, items):
        n = self.ast
        ch = [self.a_specs(specs)]
        if items:
            ds = []
            for dv, name, init in items:
                c = [self.a_declor(dv, name)]
                if init is not None:
                    c.append(self.a_init(init))
                ds.append(self.ast(self.fresh(), "AST_INIT_DECLOR", c))
            ch.append(self.ast(self.fresh(), "AST_INIT_DECLOR_LIST", ds))
        return self.ast(self.fresh(), "AST_DECL", ch)

    def stmt(self, s):
        k = s[0]
        f = self.fresh()
        if k == "decl":
            return self.decl(s[1], s[2])
        if k == "cmpd":
            return self.ast(f, "AST_CMPD_STMT", [self.stmt(x) for x in s[1]])
        if k == "if":
            return self.ast(f, "AST_IF_STMT", [self.expr(self.cond)] + [self.stmt(x) for x in s[1:]])
        if k == "while":
            return self.ast(f, "AST_WHILE_STMT", [self.expr(self.cond), self.stmt(s[1])])
        if k == "switch":
            return self.ast(f, "AST_SWITCH_STMT", [self.expr(self.cond), self.stmt(s[1])])
        if k == "for":
            # ("for", init, cond, step, body)
            return self.ast(f, "AST_FOR_STMT", [self.stmt(x) for x in s[1:]])
        if k == "case":
            return self.ast(f, "AST_CASE_STMT", [self.expr(("k", s[1])), self.stmt(s[2])])
        if k == "default":
            return self.ast(f, "AST_DEFAULT_STMT", [self.stmt(s[1])])
        if k == "expr":
            return self.ast(f, "AST_EXPR_STMT", [self.expr(s[1])])
        if k == "ret":
            return self.ast(f, "AST_RET_STMT", [self.expr(s[1])] if len(s) > 1 else [])
        return self.ast(f, {"break": "AST_BREAK_STMT", "continue": "AST_CONTINUE_STMT", "null": "AST_NULL_STMT"}[k])

    def run_prog(self, exts):
        out = []
        for x in exts:
            if x[0] == "decl":
                out.append(self.decl(x[1], x[2]))
            else:
                body = self.ast(self.fresh(), "AST_CMPD_STMT", [self.stmt(s) for s in x[4]])
                out.append(self.ast(self.fresh(), "AST_FUNC_DEF", [self.a_specs(x[1]), self.a_declor(x[2], x[3]), body]))
        return self.run(self.ast("root", "AST_TRAS_UNIT", out))


def show_stmt(s):
    k = s[0]
    if k == "decl":
        return show_decl(s[1], s[2])
    if k == "cmpd":
        return "{ %s }" % " ".join(map(show_stmt, s[1]))
    if k == "if":
        return "if (c) %s" % show_stmt(s[1]) + (" else %s" % show_stmt(s[2]) if len(s) > 2 else "")
    if k in ("while", "switch"):
        return "%s (c) %s" % (k, show_stmt(s[1]))
    if k == "for":
        return "for (%s %s %s) %s" % tuple(map(show_stmt, s[1:]))
    if k == "case":
        return "case %s: %s" % (s[1], show_stmt(s[2]))
    if k == "default":
        return "default: %s" % show_stmt(s[1])
    if k == "expr":
        return show_e(s[1]) + ";"
    if k == "ret":
        return "return%s;" % (" " + show_e(s[1]) if len(s) > 1 else "")
    return "" if k == "null" else k + ";"


def show_e(e):
    if e == "x":
        return "e"
    if isinstance(e, Ok):
        return "e"
    if isinstance(e, Fail):
        return "<error>"
    if e[0] == "use":
        return e[1]
    if e[0] == "k":
        return str(e[1])
    if e[0] == "set":
        return "%s = %s" % e[1:]
    if e[0] == "sizeof":
        return "sizeof(%s)" % show_specs(e[1])
    if e[0] == "dot":
        return "%s.%s" % (show_e(e[1]), e[2])
    if e[0] == "arrow":
        return "%s->%s" % (show_e(e[1]), e[2])
    if e[0] == "addr":
        return "&%s" % show_e(e[1])
    if e[0] == "assign":
        return "%s = %s" % (show_e(e[1]), show_e(e[2]))
    return repr(e[1])


def show_prog(exts):
    out = []
    for x in exts:
        if x[0] == "decl":
            out.append(show_decl(x[1], x[2]))
        else:
            out.append("%s %s { %s }" % (show_specs(x[1]), show_dv(x[2], x[3]), " ".join(map(show_stmt, x[4]))))
    return " ".join(out)


def lower(r, o):
    """typed tree of an outcome -> [(lines of intermediate code, state)]: the generator is interpreted on the tree the resolver built"""
    from rules.immc_common import Canon
    need("immcgen_generate_immcode")
    L = Lab(r.E, o.s)
    im = L.call("new_immcgen", o.srt_v)
    out = []
    for v, s in r.E.call(("fn", "immcgen_generate_immcode", None), [im], L.s, FAKE):
        out.append((Canon().seq(freeze(r.E, s, v)), s))
    return out

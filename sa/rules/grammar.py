"""Reference grammar of the supported language (C11 6.5, 6.7, 6.8, 6.9 restricted), as nondeterministic parsers over chains of symbols.
A chain symbol is a token class ("IDENT", "PLUS", ...) or ("nt", X, position): an opaque phrase of nonterminal X.
Every parser yields (tree, next index); `expected` collects the token classes that could come next at the end of the chain."""

TYPE_TOK = {"KEYWORD_VOID": "TYPE_VOID", "KEYWORD_CHAR": "TYPE_CHAR", "KEYWORD_INT": "TYPE_INT", "KEYWORD_LONG": "TYPE_LONG",
            "KEYWORD_UNSIGNED": "TYPE_UNSIGNED"}
LEVELS = [("logical_or_expr", {"VBAR_VBAR": "LOR"}), ("logical_and_expr", {"AND_AND": "LAND"}),
          ("bitwise_inclusive_or_expr", {"VBAR": "OR"}), ("bitwise_exclusive_or_expr", {"CARET": "XOR"}),
          ("bitwise_and_expr", {"AND": "AND"}), ("equality_expr", {"EQUAL_EQUAL": "EQUAL", "EXCLAM_EQUAL": "NEQUAL"}),
          ("relational_expr", {"LESS": "LESS", "GREATER": "GREATER", "LESS_EQUAL": "LESSEQ", "GREATER_EQUAL": "GREATEREQ"}),
          ("shift_expr", {"LESS_LESS": "LSHIFT", "GREATER_GREATER": "RSHIFT"}), ("additive_expr", {"PLUS": "ADD", "MINUS": "SUB"}),
          ("multiplicative_expr", {"ASTERISK": "MUL", "SLASH": "DIV", "PERCENT": "MOD"})]
ASSIGN = {"EQUAL": "ASSIGN", "ASTERISK_EQUAL": "MUL_ASSIGN", "SLASH_EQUAL": "DIV_ASSIGN", "PERCENT_EQUAL": "MOD_ASSIGN",
          "PLUS_EQUAL": "ADD_ASSIGN", "MINUS_EQUAL": "SUB_ASSIGN", "LESS_LESS_EQUAL": "LSHIFT_ASSIGN",
          "GREATER_GREATER_EQUAL": "RSHIFT_ASSIGN", "AND_EQUAL": "AND_ASSIGN", "CARET_EQUAL": "XOR_ASSIGN", "VBAR_EQUAL": "OR_ASSIGN"}
UNARY = {"AND": "ADDR", "ASTERISK": "INDIR", "PLUS": "POS", "MINUS": "NEG", "TILDE": "NOT", "EXCLAM": "LNOT"}
PREFIX = {"PLUS_PLUS": "PREINC", "MINUS_MINUS": "PREDEC"}
NAME = ("IDENT", "TYPEDEF_NAME")       # any identifier; as an operand only IDENT, as a type only TYPEDEF_NAME

EXPR = ["expr", "constant_expr", "assignment_expr", "conditional_expr"] + [l for l, _ in LEVELS] + \
       ["cast_expr", "unary_expr", "postfix_expr", "argument_expr_list", "primary_expr"]
STMT = ["stmt", "case_stmt", "default_stmt", "compound_stmt", "continue_stmt", "break_stmt", "return_stmt", "expression_stmt",
        "if_else_stmt", "switch_stmt", "while_stmt", "for_stmt"]
DECL = ["translation_unit", "function_definition", "decl", "type_name", "decl_specifiers", "specifier_qualifier_list", "storage_class_specifier",
        "type_specifier", "struct_specifier", "struct_decl_list", "struct_decl", "struct_declarator_list", "enum_specifier",
        "enumerator_list", "enumerator", "init_declarator_list", "init_declarator", "declarator", "abstract_declarator",
        "parameter_list", "parameter_decl", "initializer", "initializer_list"]
NTS = EXPR + STMT + DECL


def N(kind, *ch, **x):
    return (kind, tuple(ch)) + tuple(sorted(x.items()))


class Ref:
    deferred = False

    def __init__(self, chain, extra=None):
        self.c = list(chain)
        self.expected = set()
        self.memo = {}
        self.active = set()
        self.notd = set()

    # ---- primitives
    def tok(self, i, *kinds):
        """-> list of (class, j)"""
        if i == len(self.c):
            self.expected.update(kinds)
            return []
        return [(self.c[i], i + 1)] if self.c[i] in kinds else []

    def nt(self, X, i):
        k = (X, i)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            return []
        self.active.add(k)
        out = []
        if i < len(self.c) and isinstance(self.c[i], tuple) and self.c[i][1] == X:
            out.append((("leaf", X, i), i + 1))
        for t, j in getattr(self, "p_" + X)(i):
            if (t, j) not in out:
                out.append((t, j))
        self.active.discard(k)
        self.memo[k] = out
        return out

    def seq(self, i, *items):
        """items: ('t', kinds...) or nonterminal names -> list of (values, j)"""
        st = [((), i)]
        for it in items:
            nx = []
            for vs, j in st:
                rs = self.tok(j, *it[1:]) if isinstance(it, tuple) else self.nt(it, j)
                pos = j
                for v, j2 in rs:
                    nx.append((vs + ((v, pos) if isinstance(it, tuple) else v,), j2))
            st = nx
        return st

    def many(self, i, first, more):
        """first, then any number of `more` groups; -> (list of values, j).  more(j) -> [(value, j2)]"""
        out = []
        todo = [((v,), j) for v, j in first(i)]
        while todo:
            vs, j = todo.pop()
            out.append((vs, j))
            todo += [(vs + (v,), j2) for v, j2 in more(j)]
        return out

    def sep(self, i, X, sep="COMMA"):
        return self.many(i, lambda j: self.nt(X, j), lambda j: [(v[1], j2) for v, j2 in self.seq(j, ("t", sep), X)])

    # ---- expressions
    def p_expr(self, i):
        return self.nt("assignment_expr", i)

    def p_constant_expr(self, i):
        return self.nt("conditional_expr", i)

    def p_assignment_expr(self, i):
        out = list(self.nt("conditional_expr", i))
        for (u, op, r), j in self.seq(i, "unary_expr", ("t",) + tuple(ASSIGN), "assignment_expr"):
            out.append((N(ASSIGN[op[0]] + "_EXPR", u, r), j))
        return out

    def p_conditional_expr(self, i):
        out = list(self.nt("logical_or_expr", i))
        for (c, _, a, _, b), j in self.seq(i, "logical_or_expr", ("t", "QUESTION"), "expr", ("t", "COLON"), "conditional_expr"):
            out.append((N("COND_EXPR", c, a, b), j))
        return out

    def level(self, i, sub, ops):
        out = []
        for vs, j in self.many(i, lambda k: self.nt(sub, k),
                               lambda k: [((v[0][0], v[1]), j2) for v, j2 in self.seq(k, ("t",) + tuple(ops), sub)]):
            t = vs[0]
            for o, r in vs[1:]:
                t = N(ops[o] + "_EXPR", t, r)
            out.append((t, j))
        return out

    def p_cast_expr(self, i):
        out = list(self.nt("unary_expr", i))
        for (_, t, _, e), j in self.seq(i, ("t", "LPAREN"), "type_name", ("t", "RPAREN"), "cast_expr"):
            out.append((N("CAST_EXPR", t, e), j))
        return out

    def p_unary_expr(self, i):
        out = list(self.nt("postfix_expr", i))
        for (o, e), j in self.seq(i, ("t",) + tuple(PREFIX), "unary_expr"):
            out.append((N(PREFIX[o[0]] + "_EXPR", e), j))
        for (o, e), j in self.seq(i, ("t",) + tuple(UNARY), "cast_expr"):
            out.append((N(UNARY[o[0]] + "_EXPR", e), j))
        for (_, e), j in self.seq(i, ("t", "KEYWORD_SIZEOF"), "unary_expr"):
            out.append((N("SIZEOF_EXPR", e), j))
        for (_, _, t, _), j in self.seq(i, ("t", "KEYWORD_SIZEOF"), ("t", "LPAREN"), "type_name", ("t", "RPAREN")):
            out.append((N("SIZEOF_EXPR", t), j))
        return out

    def p_postfix_expr(self, i):
        def more(k):
            r = []
            for v, j in self.seq(k, ("t", "LBRACKET"), "expr", ("t", "RBRACKET")):
                r.append((("SUBSC_EXPR", v[1]), j))
            for v, j in self.seq(k, ("t", "LPAREN"), "argument_expr_list", ("t", "RPAREN")):
                r.append((("CALL_EXPR", v[1]), j))
            for v, j in self.seq(k, ("t", "DOT", "ARROW"), ("t",) + NAME):
                r.append((("MEMBER_EXPR" if v[0][0] == "DOT" else "TOMEMBER_EXPR", N("IDENT_EXPR", name=v[1][1])), j))
            for v, j in self.tok(k, "PLUS_PLUS", "MINUS_MINUS"):
                r.append((("POSTINC_EXPR" if v == "PLUS_PLUS" else "POSTDEC_EXPR", None), j))
            return r
        out = []
        for vs, j in self.many(i, lambda k: self.nt("primary_expr", k), more):
            t = vs[0]
            for o, a in vs[1:]:
                t = N(o, t, a) if a is not None else N(o, t)
            out.append((t, j))
        return out

    def p_argument_expr_list(self, i):
        return [(N("ARG_LIST"), i)] + [(N("ARG_LIST", *vs), j) for vs, j in self.sep(i, "assignment_expr")]

    def p_primary_expr(self, i):
        out = [(N("IDENT_EXPR", name=i), j) for _, j in self.tok(i, "IDENT")]
        out += [(N("INT_EXPR", ilit=i), j) for _, j in self.tok(i, "INT")]
        out += [(N("CHAR_EXPR", ilit=i), j) for _, j in self.tok(i, "CHAR")]
        out += [(N("STRING_EXPR", slit=i), j) for _, j in self.tok(i, "STRING")]
        out += [(v[1], j) for v, j in self.seq(i, ("t", "LPAREN"), "expr", ("t", "RPAREN"))]
        return out

    # ---- statements
    def p_stmt(self, i):
        out = []
        for X in STMT[1:]:
            out += self.nt(X, i)
        return out

    def p_case_stmt(self, i):
        return [(N("CASE_STMT", v[1], v[3]), j) for v, j in self.seq(i, ("t", "KEYWORD_CASE"), "expr", ("t", "COLON"), "stmt")]

    def p_default_stmt(self, i):
        return [(N("DEFAULT_STMT", v[2]), j) for v, j in self.seq(i, ("t", "KEYWORD_DEFAULT"), ("t", "COLON"), "stmt")]

    def p_compound_stmt(self, i):
        out = []
        for vs, j in self.many(i, lambda k: self.tok(k, "LBRACE"), lambda k: self.nt("decl", k) + self.nt("stmt", k)):
            for _, j2 in self.tok(j, "RBRACE"):
                out.append((N("CMPD_STMT", *vs[1:]), j2))
        return out

    def p_continue_stmt(self, i):
        return [(N("CONTINUE_STMT"), j) for v, j in self.seq(i, ("t", "KEYWORD_CONTINUE"), ("t", "SEMICOLON"))]

    def p_break_stmt(self, i):
        return [(N("BREAK_STMT"), j) for v, j in self.seq(i, ("t", "KEYWORD_BREAK"), ("t", "SEMICOLON"))]

    def p_return_stmt(self, i):
        return [(N("RET_STMT"), j) for v, j in self.seq(i, ("t", "KEYWORD_RETURN"), ("t", "SEMICOLON"))] + \
               [(N("RET_STMT", v[1]), j) for v, j in self.seq(i, ("t", "KEYWORD_RETURN"), "expr", ("t", "SEMICOLON"))]

    def p_expression_stmt(self, i):
        return [(N("NULL_STMT"), j) for v, j in self.tok(i, "SEMICOLON")] + \
               [(N("EXPR_STMT", v[0]), j) for v, j in self.seq(i, "expr", ("t", "SEMICOLON"))]

    def p_if_else_stmt(self, i):
        out = []
        for v, j in self.seq(i, ("t", "KEYWORD_IF"), ("t", "LPAREN"), "expr", ("t", "RPAREN"), "stmt"):
            out.append((N("IF_STMT", v[2], v[4]), j))
            out += [(N("IF_STMT", v[2], v[4], w[1]), k) for w, k in self.seq(j, ("t", "KEYWORD_ELSE"), "stmt")]
        return out

    def p_switch_stmt(self, i):
        return [(N("SWITCH_STMT", v[2], v[4]), j)
                for v, j in self.seq(i, ("t", "KEYWORD_SWITCH"), ("t", "LPAREN"), "expr", ("t", "RPAREN"), "stmt")]

    def p_while_stmt(self, i):
        return [(N("WHILE_STMT", v[2], v[4]), j)
                for v, j in self.seq(i, ("t", "KEYWORD_WHILE"), ("t", "LPAREN"), "expr", ("t", "RPAREN"), "stmt")]

    def p_for_stmt(self, i):
        out = []
        for _, j in self.seq(i, ("t", "KEYWORD_FOR"), ("t", "LPAREN")):
            for a, k in self.nt("decl", j) + self.nt("expression_stmt", j):
                for b, l in self.nt("expression_stmt", k):
                    ends = [(N("NULL_STMT"), m) for _, m in self.tok(l, "RPAREN")]
                    ends += [(N("EXPR_STMT", v[0]), m) for v, m in self.seq(l, "expr", ("t", "RPAREN"))]
                    for c, m in ends:
                        out += [(N("FOR_STMT", a, b, c, d), n) for d, n in self.nt("stmt", m)]
        return out

    # ---- declarations
    def p_translation_unit(self, i):
        item = lambda k: self.nt("function_definition", k) + self.nt("decl", k)
        return [(N("TRAS_UNIT", *vs), j) for vs, j in self.many(i, item, item)]

    def p_function_definition(self, i):
        return [(N("FUNC_DEF", *v), j) for v, j in self.seq(i, "decl_specifiers", "declarator", "compound_stmt")]

    def p_decl(self, i):
        return [(N("DECL", v[0]), j) for v, j in self.seq(i, "decl_specifiers", ("t", "SEMICOLON"))] + \
               [(N("DECL", v[0], v[1]), j) for v, j in self.seq(i, "decl_specifiers", "init_declarator_list", ("t", "SEMICOLON"))]

    def p_type_name(self, i):
        out = [(N("TYPE_NAME", *v), j) for v, j in self.seq(i, "specifier_qualifier_list", "abstract_declarator")]
        if self.deferred:
            # after a malformed abstract declarator the error may be left to the caller, which cannot see the closing parenthesis
            out += [(N("TYPE_NAME", v[0]), j) for v, j in self.seq(i, "specifier_qualifier_list")]
        return out

    def p_decl_specifiers(self, i):
        item = lambda k: self.nt("storage_class_specifier", k) + self.nt("type_specifier", k)
        return [(N("DECL_SPECS", *vs), j) for vs, j in self.many(i, item, item)]

    def p_specifier_qualifier_list(self, i):
        item = lambda k: self.nt("type_specifier", k)
        return [(N("SPEC_QUAL_LIST", *vs), j) for vs, j in self.many(i, item, item)]

    def p_storage_class_specifier(self, i):
        return [(N("STG_TYPEDEF"), j) for _, j in self.tok(i, "KEYWORD_TYPEDEF")]

    def p_type_specifier(self, i):
        out = [(N(TYPE_TOK[t]), j) for t, j in self.tok(i, *TYPE_TOK)]
        out += [(N("TYPEDEF_NAME", name=i), j) for _, j in self.tok(i, "TYPEDEF_NAME")]
        return out + self.nt("struct_specifier", i) + self.nt("enum_specifier", i)

    def tagged(self, i, kw, kind, nm, lst):
        out = []
        for _, j in self.tok(i, kw):
            heads = [((), j)] + [((N(nm, name=j),), k) for _, k in self.tok(j, *NAME)]
            for h, k in heads:
                if h:
                    out.append((N(kind, *h), k))
                out += [(N(kind, *(h + (v[1],))), l) for v, l in self.seq(k, ("t", "LBRACE"), lst, ("t", "RBRACE"))]
        return out

    def p_struct_specifier(self, i):
        return self.tagged(i, "KEYWORD_STRUCT", "TYPE_STRUCT", "STRUCT_NAME", "struct_decl_list")

    def p_enum_specifier(self, i):
        return self.tagged(i, "KEYWORD_ENUM", "TYPE_ENUM", "ENUM_NAME", "enumerator_list")

    def p_struct_decl_list(self, i):
        item = lambda k: self.nt("struct_decl", k)
        return [(N("STRUCT_DECL_LIST", *vs), j) for vs, j in self.many(i, item, item)]

    def p_struct_decl(self, i):
        return [(N("STRUCT_DECL", v[0], v[1]), j)
                for v, j in self.seq(i, "specifier_qualifier_list", "struct_declarator_list", ("t", "SEMICOLON"))]

    def p_struct_declarator_list(self, i):
        return [(N("STRUCT_DECLOR_LIST", *vs), j) for vs, j in self.sep(i, "declarator")]

    def trailing(self, i, kind, X):
        out = []
        for vs, j in self.sep(i, X):
            out.append((N(kind, *vs), j))
            out += [(N(kind, *vs), k) for _, k in self.tok(j, "COMMA")]
        return out

    def p_enumerator_list(self, i):
        return self.trailing(i, "ENUMOR_LIST", "enumerator")

    def p_enumerator(self, i):
        out = []
        for _, j in self.tok(i, *NAME):
            out.append((N("ENUMOR", N("ENUM_CONST", name=i)), j))
            out += [(N("ENUMOR", N("ENUM_CONST", name=i), v[1]), k) for v, k in self.seq(j, ("t", "EQUAL"), "constant_expr")]
        return out

    def p_init_declarator_list(self, i):
        return [(N("INIT_DECLOR_LIST", *vs), j) for vs, j in self.sep(i, "init_declarator")]

    def p_init_declarator(self, i):
        out = []
        for d, j in self.nt("declarator", i):
            out.append((N("INIT_DECLOR", d), j))
            out += [(N("INIT_DECLOR", d, v[1]), k) for v, k in self.seq(j, ("t", "EQUAL"), "initializer")]
        return out

    # declarators: a declarator denotes a terminal and its derivations, nearest to the name first (C11 6.7.6)
    def suffixes(self, i):
        out = []
        todo = [((), i)]
        while todo:
            ds, j = todo.pop()
            out.append((ds, j))
            todo += [(ds + (("ARRAY_DECLOR", v[1]),), k) for v, k in self.seq(j, ("t", "LBRACKET"), "constant_expr", ("t", "RBRACKET"))]
            todo += [(ds + (("FUNC_DECLOR", v[1]),), k) for v, k in self.seq(j, ("t", "LPAREN"), "parameter_list", ("t", "RPAREN"))]
        return out

    def declarator(self, i, abstract):
        """-> list of ((terminal, derivations), j)"""
        key = ("decl", i, abstract)
        if key in self.active:
            return []
        self.active.add(key)
        out = []
        ptrs = [(0, i)]
        while True:
            n, j = ptrs[-1]
            r = self.tok(j, "ASTERISK")
            if not r:
                break
            ptrs.append((n + 1, r[0][1]))
        for n, j in ptrs:
            if n < len(ptrs) - 1:
                continue
            cores = []
            for _, k in self.tok(j, "LPAREN"):
                for c, l in self.declarator(k, abstract):
                    if abstract and not c[1]:
                        continue                     # "()" is not a parenthesized abstract declarator
                    for _, m in self.tok(l, "RPAREN"):
                        cores.append((c, m))
            if abstract:
                cores.append(((N("ABS_DECLOR"), ()), j))
                # a function declarator with nothing before its parameter list only occurs in a parameter, where C reads "(T)" as
                # a declarator first: a type name right after that parenthesis is not demanded
                self.notd.add(j + 1)
            else:
                cores += [((N("IDENT_DECLOR", name=j), ()), k) for _, k in self.tok(j, *NAME)]
            for (t, d0), k in cores:
                for ds, l in self.suffixes(k):
                    out.append(((t, d0 + ds + (("PTR_DECLOR", None),) * n), l))
        self.active.discard(key)
        return out

    def tree(self, d):
        t, ds = d
        for kind, x in reversed(ds):
            t = N(kind, t) if x is None else N(kind, t, x)
        return t

    def p_declarator(self, i):
        return [(self.tree(d), j) for d, j in self.declarator(i, False)]

    def p_abstract_declarator(self, i):
        return [(self.tree(d), j) for d, j in self.declarator(i, True)]

    def p_parameter_list(self, i):
        return [(N("PARAM_LIST", *vs), j) for vs, j in self.sep(i, "parameter_decl")]

    def p_parameter_decl(self, i):
        out = []
        for s, j in self.nt("decl_specifiers", i):
            out += [(N("PARAM_DECL", s, d), k) for d, k in self.nt("declarator", j) + self.nt("abstract_declarator", j)]
        return out

    def p_initializer(self, i):
        return list(self.nt("assignment_expr", i)) + \
               [(v[1], j) for v, j in self.seq(i, ("t", "LBRACE"), "initializer_list", ("t", "RBRACE"))]

    def p_initializer_list(self, i):
        return self.trailing(i, "INIT_LIST", "initializer")


def _lv(n):
    name, ops = LEVELS[n]
    sub = LEVELS[n + 1][0] if n + 1 < len(LEVELS) else "cast_expr"
    return lambda self, i: self.level(i, sub, ops)


for _n in range(len(LEVELS)):
    setattr(Ref, "p_" + LEVELS[_n][0], _lv(_n))

_first = {}


def first(X):
    if X not in _first:
        r = Ref([])
        r.nt(X, 0)
        _first[X] = frozenset(r.expected)
    return _first[X]


def parse(X, chain, deferred=False):
    """-> (trees deriving the whole chain, token classes that may follow it inside X)"""
    r = Ref(chain)
    r.deferred = deferred
    ts = []
    for t, j in r.nt(X, 0):
        if j == len(chain) and t not in ts:
            ts.append(t)
    return ts, frozenset(r.expected)


# what may follow a list whose end is recognised by its closing token
FOLLOW = {"initializer_list": {"RBRACE"}, "enumerator_list": {"RBRACE"}, "struct_decl_list": {"RBRACE"}, "translation_unit": {"EOF"},
          "argument_expr_list": {"RPAREN"}, "abstract_declarator": {"RPAREN", "COMMA"}}


class Viable(Ref):
    """Can the facts of one path of the parser still be the beginning of a phrase X?
    facts: tokset(position) -> classes, edge(Y, position) -> end | None, failed(Y, position), known(position)"""

    def __init__(self, facts):
        Ref.__init__(self, [])
        self.f = facts
        self.exp = {}                 # position -> token classes a derivation could use there
        self.dead = {}                # the same for phrases that are known to fail there
        self.alive = set()
        self.notd = set()

    def tok(self, i, *kinds):
        T = self.f.tokset(i)
        if i in self.notd:
            kinds = tuple(k for k in kinds if k != "TYPEDEF_NAME")
        self.exp.setdefault(i, set()).update(kinds)
        hit = [k for k in kinds if k in T]
        if not hit:
            return []
        if not self.f.known(i + 1):
            self.alive.add(i)
            return []
        return [(k, i + 1) for k in hit[:1]]

    def nt(self, X, i):
        k = (X, i)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            return []
        if self.f.failed(X, i):
            self.dead.setdefault(i, set()).update(first(X))
            return []
        e = self.f.edge(X, i)
        if e is not None:
            self.dead.setdefault(i, set()).update(first(X))
            return [(("leaf", X, i), e)]
        # no phrase is both a type name and an expression, or both a unary expression and a cast
        if X in EXPR and self.f.edge("type_name", i) is not None:
            return []
        if X == "type_name" and any(self.f.edge(y, i) is not None for y in EXPR):
            return []
        if X == "cast_expr" and self.f.edge("unary_expr", i) is not None:
            return [(("leaf", X, i), self.f.edge("unary_expr", i))]
        self.active.add(k)
        out = []
        for t, j in getattr(self, "p_" + X)(i):
            if all(j != j2 for _, j2 in out):
                out.append((t, j))
        self.active.discard(k)
        self.memo[k] = out
        return out

    def check(self, X):
        """-> reasons why the input may still be a phrase X"""
        why = []
        for t, j in self.nt(X, 0):
            rest = (self.f.tokset(j) & FOLLOW.get(X, self.f.tokset(j))) - self.exp.get(j, set()) - self.dead.get(j, set())
            if rest:
                why.append("a complete %s may end here, followed by %s" % (X, "|".join(sorted(rest)[:4])))
        for i in sorted(self.alive):
            ok = sorted(self.f.tokset(i) & self.exp[i])
            why.append("%s would be in order" % "|".join(ok[:5]))
        return why

"""P08: statements and declarations are parsed into what was written."""
from rules.parse_common import *
from rules.grammar import STMT, DECL
from report import pmap

META = {"level": "other",
        "explanation": "Every statement, declaration, declarator and initializer production of the parser is interpreted abstractly on a symbolic token "
                       "stream with opaque sub-phrases; every path's consumed symbols and tree are compared with the grammar of C11 6.7-6.9 "
                       "(restricted to the supported forms), including which token follows and what is rejected. A second rule follows the set of "
                       "identifiers that name types through every production: it grows exactly by the names a typedef declares and shrinks at the end of a block.",
        "assumptions": ["repetitions within one production are analysed up to the chain length in the rules table",
                        "opaque phrases are deterministic: the same production at the same token parses the same phrase"]}


def one(R, X, tier, st):
    check_production(R, X, tier, st)


def run(R, tier):
    for a in ("parse_stmt", "parse_decl", "parse_function_definition", "parser_create_ast"):
        need(a)
    from rules.grammar import EXPR
    pmap(R, one, [(X, tier, False) for X in present(STMT + DECL)] + [(X, tier, True) for X in present(STMT + DECL + EXPR)], jobs=8)

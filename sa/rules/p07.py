"""P07: expressions group by C precedence and associativity."""
from rules.parse_common import *
from rules.grammar import EXPR
from report import pmap

META = {"level": "other",
        "explanation": "Every expression production of the parser is interpreted abstractly on a symbolic token stream; phrases delegated to other "
                       "productions are opaque, repetitions are unrolled. Every path yields the symbols consumed, the possible next tokens and the tree "
                       "built; the tree must be the one C11 6.5 gives these symbols, no path may stop where the phrase could go on, and no path "
                       "may reject what is still the beginning of a phrase. Composition over the productions covers every nesting.",
        "assumptions": ["repetitions within one production are analysed up to the chain length in the rules table (two or more operators of one level)",
                        "opaque phrases are deterministic: the same production at the same token parses the same phrase"]}


def one(R, X, tier):
    check_production(R, X, tier)


def run(R, tier):
    need("parse_expr")
    pmap(R, one, [(X, tier) for X in present(EXPR)], jobs=8)

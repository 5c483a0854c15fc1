"""P24: literals have the value and the type that are written."""
from rules.lex_common import *
from report import pmap

META = {"level": "other",
        "explanation": "The tokeniser is interpreted abstractly on literals whose characters are sets of byte values; the value term (a linear form over the characters) and the type of each constant, "
                       "and every byte of each string, are compared with C11 6.4.4/6.4.5 on all sub-cases C distinguishes. Types are judged at every boundary of int, long and their unsigned versions, in all three bases and with all suffixes.",
        "assumptions": ["strtoll/strtoull compute the value of the digits they are given",
                        "constants that no type holds, multi-character constants beyond their first character and the sign of characters above 127 are not judged"]}
MINE = {"integer constants", "character constants", "string literals"}


def one(R, *sc):
    judge_scene(R, sc, MINE)


def run(R, tier):
    need("lexer_read_ctokens")
    pmap(R, one, scenarios(tier, {"numbers", "strings", "texts"}), single=True)

"""P06: no part of the source text is lost."""
from rules.lex_common import *
from report import pmap

META = {"level": "other",
        "explanation": "The same abstract interpretation of the tokeniser as for P05, judged for the end of the input: every path of every loop ends within the text, the token sequence ends with one end "
                       "token exactly at the end of the text, and every text that is not a sequence of C tokens (bytes outside the character set, cut-off literals, bad escapes) is rejected on every path.",
        "assumptions": ["a loop that goes on for more iterations than the text has characters, plus a margin, never ends",
                        "the text handed to the tokeniser holds no NUL byte (the file reader ends it there)"]}
MINE = {"end of input", "error"}


def one(R, *sc):
    judge_scene(R, sc, MINE)


def run(R, tier):
    need("lexer_read_ctokens")
    pmap(R, one, scenarios(tier), single=True)

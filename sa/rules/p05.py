"""P05: every keyword, operator and punctuator is recognised as itself."""
from rules.lex_common import *
from report import pmap

META = {"level": "other",
        "explanation": "lexer_read_ctokens is interpreted abstractly (all paths) on texts whose characters are sets of byte values; each path's tokens are compared with a reference "
                       "tokeniser (C11 6.4) run on the same sets, split where C distinguishes characters. Words: every word over all letters and digits up to six characters, words of letters up "
                       "to ten, every keyword with any character at every place and after it; punctuators with every following characters; every text of up to two bytes.",
        "assumptions": ["the hash containers behind the token tables answer as maps do",
                        "longer words are covered by representative lengths up to 65, crossing every growth of the buffer"]}
MINE = {"identifiers and keywords", "punctuators", "sequence of tokens"}


def one(R, *sc):
    judge_scene(R, sc, MINE)


def names(R):
    """the token names used in diagnostics: one per token, each the spelling of its token"""
    if global_oid("ctoken_types") is None:
        return
    for n, v in prog().enumtypes["CTokenType"]:
        if not n.startswith("CTOKEN_"):
            continue
        k = n[len("CTOKEN_"):]
        want = [k[8:].lower()] if k.startswith("KEYWORD_") else [p for p, x in PUNCT.items() if x == k]
        if not want:
            continue
        try:
            got = global_text("ctoken_types", v)
        except Undecided as e:
            R.unk("token names", n, e)
            continue
        if got is None:
            R.unk("token names", n, "not a text")
        elif got != want[0]:
            R.bad("token names", n, "src/ctoken ctoken_types", "the token '%s' is called '%s' in diagnostics" % (want[0], got))
        else:
            R.ok("token names")


def run(R, tier):
    need("lexer_read_ctokens")
    names(R)
    pmap(R, one, scenarios(tier, {"words", "puncts", "texts"}), single=True)

"""P02: an error found by any stage is reported, and only then."""
from rules.fail_common import *
from rules import parse_common as PC
from rules import lex_common as LC
from report import pmap

META = {"level": "other",
        "explanation": "The semantic stage is interpreted abstractly on every kind of construct with every subset (up to three) of its parts planned to be rejected, on declarations, "
                       "initializers and whole translation units with rejected parts in every place, and on the instances of the other rules, where the constraints of C itself reject. "
                       "Every path must hand back either a result or errors, errors whenever a part was rejected, and every diagnostic created on the path. Every parser production is "
                       "interpreted with every delegated phrase failing or succeeding: success is allowed only if what was consumed is a phrase without the failed part.",
        "assumptions": ["a construct may stop at its first error: parts it never looks at are not judged",
                        "the parser may discard the error of an alternative it backs out of"]}
RULE = {"expr": "expressions and statements", "decl": "declarations", "init": "initializers", "prog": "translation units", "case04": "declarations", "case11": "translation units", "case12": "translation units"}


def one(R, kind, *a):
    rule = RULE[kind]
    try:
        sc = SCENES[kind](*a)
    except Undecided as e:
        R.unk(rule, str(a), e)
        return
    R.saw(sc.r.E.visited)
    if not sc.outs:
        R.bad(rule, "compilation stops without an answer", sc.what, why_dead(sc.r))
    for o in sc.outs:
        bad = complaints(sc, o)
        for k, why in bad[:1]:
            R.bad(rule, k, sc.what, why)
        if not bad:
            R.ok(rule)


def complaints(sc, o):
    bad = []
    if o.srt_v != 0 and o.errs_v != 0:
        bad.append(("a result is handed back together with errors", str(o.errs)))
    if o.srt_v == 0 and o.errs_v == 0:
        bad.append(("neither a result nor an error is handed back", "parts resolved: %s" % o.parts))
    if o.errs_v != 0 and not o.errs:
        bad.append(("a failure without any error", "parts resolved: %s" % o.parts))
    if sc.fails and o.srt_v != 0:
        bad.append(("success although a part was rejected", "rejected: %s; resolved: %s" % (sorted(sc.fails), o.parts)))
    want = ["<error 0 of %s>" % n for n in o.parts if n in sc.fails]
    got = list(o.errs or [])
    for w in want:
        if w in got:
            got.remove(w)
        elif o.errs_v != 0:
            bad.append(("an error of a part is dropped", "lost: %s; handed back: %s" % (w, o.errs)))
    if o.errs_v != 0:
        have = [txt(("text", x)) for x in all_errors(sc.r.E, o.s, sc.r.heap0)]
        lost = sorted({str(x) for x in have} - {str(x) for x in o.errs})
        if lost and not bad:
            bad.append(("an error that was found is dropped", "lost: %s; handed back: %s" % (lost, o.errs)))
    elif not bad and all_errors(sc.r.E, o.s, sc.r.heap0):
        bad.append(("success although an error was found", str(all_errors(sc.r.E, o.s, sc.r.heap0))))
    dup = [x for x in got if x.startswith("<error")]
    if dup:
        bad.append(("an error is reported twice", "%s" % dup))
    return bad


def parser_one(R, X, tier):
    rule = "parser"
    try:
        P = PC.Par(X, PC.limit_of(X, tier))
        outs = P.run()
    except Undecided as e:
        R.unk(rule, X, e)
        return
    R.saw(P.E.visited)
    seen = set()

    def bad(k, why):
        if k not in seen:
            seen.add(k)
            R.bad(rule, "%s: %s" % (X, k), PC.where(X), why)
    for o in outs:
        n = len(seen)
        if o.ast_v != 0 and o.err_v != 0:
            bad("a tree is handed back together with an error", "")
        if o.ast_v == 0 and o.err_v == 0:
            bad("neither a tree nor an error is handed back", "after %s" % PC.c_str(o.chain() or []))
        if o.ast_v != 0 and o.fails:
            ch = o.chain()
            if ch is None:
                bad("success although a phrase was rejected", "rejected: %s" % ", ".join(sorted({y for y, _ in o.fails})))
                continue
            defer = ("abstract_declarator", o.end) in o.fails
            for cc in PC.concretize(ch):
                if not PC.parse(X, cc, defer)[0]:
                    bad("success although a phrase was rejected", "rejected: %s; accepted: %s" % (", ".join(sorted({y for y, _ in o.fails})), PC.sym_str(cc)))
                    break
        if o.ast_v != 0 and o.err_v == 0:
            live = [q for q, ob in o.s.objs.items() if q[0] == "H" and q not in P.heap0 and ("message",) in ob.f and not ob.freed]
            if live:
                bad("success although an error was found", "the error is neither handed back nor set aside; accepted: %s" % PC.c_str(o.chain() or []))
        if o.err_v != 0:
            e = o.s.objs.get(o.err_v[1]) if isinstance(o.err_v, tuple) else None
            if e is not None and e.freed:
                bad("the error handed back was released", "")
        if len(seen) == n:
            R.ok(rule)
    for k, why in PC.junk(P):
        bad(k, why)


def lexer_one(R, *sc):
    rule = "tokeniser"
    try:
        x = LC.analyse(sc)
    except Undecided as e:
        R.unk(rule, sc[0], e)
        return
    R.saw(x.E.visited)
    for o in x.outs:
        if o.v is None:
            continue
        made = LC.errors_made(o)
        bad = None
        if o.toks is not None and o.err is not None:
            bad = "tokens are handed back together with an error"
        elif o.toks is None and o.err is None:
            bad = "neither tokens nor an error are handed back"
        elif o.toks is not None and made:
            bad = "success although an error was found"
        elif o.err is not None and o.s.objs[o.err[1]].freed:
            bad = "the error handed back was released"
        if bad:
            R.bad(rule, bad, "lexer_read_ctokens", "%s: the text  %s" % (sc[0], LC.spell(LC.byte_sets(o.doms))))
        else:
            R.ok(rule)


def dispatch(R, k, *a):
    {"r": one, "p": parser_one, "l": lexer_one}[k](R, *a)


def run(R, tier):
    need("resolve_expr")
    need("resolve_decl")
    need("resolver_resolve_semantics")
    from rules.grammar import EXPR, STMT, DECL
    need("lexer_read_ctokens")
    pmap(R, dispatch, [("l",) + x for x in LC.scenarios(tier, {"texts"})] + [("l",) + x[:3] + (False,) for x in LC.scenarios(tier, {"strings"}) if x[1] <= 4] + [("r",) + x for x in resolver_items(tier)] + [("p", X, tier) for X in PC.present(EXPR + STMT + DECL)])

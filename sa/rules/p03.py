"""P03: memory handed over is released exactly once and never used afterwards."""
from rules.fail_common import *
from rules import parse_common as PC
from rules import lex_common as LC
from rules.grammar import EXPR, STMT, DECL
from report import pmap

META = {"level": "other",
        "explanation": "An ownership analysis over the abstract interpretation of the compiler's own source: every allocation is an abstract object that is live, released or handed over. "
                       "On every path of every construct (with any of its parts rejected), a released object is not read, written or released again, nothing handed back refers to a "
                       "released object, and every object allocated on the path is released or reachable from what is handed back. After releasing the result and the stage's own state nothing is left.",
        "assumptions": ["vectors, maps and sets own their elements as their element types declare (their own code is modelled by this contract)",
                        "malloc succeeds"]}
RULE = {"expr": "semantic stage: expressions and statements", "decl": "semantic stage: declarations", "init": "semantic stage: initializers",
        "prog": "semantic stage: translation units", "case04": "semantic stage: declarations", "case11": "semantic stage: translation units",
        "case12": "semantic stage: translation units"}


def dangling(E, s, v):
    """released objects still reachable from v"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "p" and len(x) == 3 and isinstance(x[1], tuple):
            oid = x[1]
        else:
            continue
        if oid in seen or oid not in s.objs:
            continue
        seen.add(oid)
        o = s.objs[oid]
        if o.freed:
            return o.site
        todo.extend(o.f.values())
        if isinstance(o.x, tuple):
            for y in o.x:
                if isinstance(y, tuple):
                    todo.append(y)
                    todo.extend(z for z in y if isinstance(z, tuple))
    return None


def memory(R, rule, what, E):
    seen = set()
    for k, f, l, fn, d, _ in E.findings:
        if k != "out-of-bounds" and (k, fn, l) not in seen:
            seen.add((k, fn, l))
            R.bad(rule, "%s in %s" % (k, fn), "%s:%s %s" % (f, l, fn), "%s: %s" % (what, d))
    return bool(seen)


def one(R, kind, *a):
    rule = RULE[kind]
    try:
        sc = SCENES[kind](*a)
    except Undecided as e:
        R.unk(rule, str(a), e)
        return
    r = sc.r
    R.saw(r.E.visited)
    bad = memory(R, rule, sc.what, r.E)
    for o in sc.outs:
        for x, site in o.leaks()[:1]:
            R.bad(rule, "never released: %s" % (site,), sc.what, "allocated at %s, neither released nor reachable" % (site,))
            bad = True
        d = dangling(r.E, o.s, o.v) or dangling(r.E, o.s, r.res)
        if d:
            R.bad(rule, "released but still reachable: %s" % (d,), sc.what, "the result or the resolver still refers to it")
            bad = True
    if kind in ("prog", "case11", "case12"):
        bad |= teardown(R, rule, sc)
    if not bad:
        R.ok(rule)


def teardown(R, rule, sc):
    """what the driver does next: the result and the resolver are released; then nothing is left"""
    r, bad = sc.r, False
    n = len(r.E.findings)
    for o in sc.outs:
        L = Lab(r.E, o.s.fork())
        if o.srt_v != 0:
            L.call("delete_srt", o.srt_v)
        if o.errs_v != 0:
            L.call("delete_vector", o.errs_v)
        L.call("delete_resolver", r.res)
        left = [x for x, ob in L.s.objs.items() if x[0] == "H" and not ob.freed and x not in r.heap0 and x != o.v[1]]
        if left:
            site = L.s.objs[left[0]].site
            R.bad(rule, "never released: %s" % (site,), sc.what, "allocated at %s, still there after the result and the resolver are released" % (site,))
            bad = True
    for k, f, l, fn, d, _ in r.E.findings[n:][:1]:
        R.bad(rule, "%s in %s" % (k, fn), "%s:%s %s" % (f, l, fn), "releasing the result and the resolver of %s: %s" % (sc.what, d))
        bad = True
    return bad


def parser_one(R, X, tier):
    rule = "parser"
    try:
        P = PC.Par(X, PC.limit_of(X, tier))
        outs = P.run()
    except Undecided as e:
        R.unk(rule, X, e)
        return
    R.saw(P.E.visited)
    bad = memory(R, rule, X, P.E)
    for o in outs:
        lk = [x for x in o.leaks()]
        for x, site in lk[:1]:
            R.bad(rule, "%s: never released: %s" % (X, site), PC.where(X), "after %s" % PC.c_str(o.chain() or []))
        d = dangling(P.E, o.s, o.v) or dangling(P.E, o.s, P.par)
        if d:
            R.bad(rule, "%s: released but still reachable" % X, PC.where(X), str(d))
        if not lk and not d and not bad:
            R.ok(rule)


def lexer_one(R, *sc):
    rule = "tokeniser"
    try:
        x = LC.analyse(sc)
    except Undecided as e:
        R.unk(rule, sc[0], e)
        return
    R.saw(x.E.visited)
    bad = memory(R, rule, sc[0], x.E)
    for o in x.outs:
        if sc[3]:
            continue
        for oid, site in o.leaks()[:1]:
            R.bad(rule, "never released: %s" % (site,), "lexer_read_ctokens", "%s: allocated at %s" % (sc[0], site))
            bad = True
        d = dangling(x.E, o.s, o.v)
        if d:
            R.bad(rule, "released but still reachable: %s" % (d,), "lexer_read_ctokens", sc[0])
            bad = True
    if not bad:
        R.ok(rule)


def run(R, tier):
    need("resolve_expr")
    need("lexer_read_ctokens")
    pmap(R, dispatch, [("l",) + x for x in LC.scenarios(tier, {"numbers", "strings", "texts", "puncts"})] + [("r",) + x for x in resolver_items(tier)] + [("p", X, tier) for X in PC.present(EXPR + STMT + DECL)])


def dispatch(R, k, *a):
    {"r": one, "p": parser_one, "l": lexer_one}[k](R, *a)

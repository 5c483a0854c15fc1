"""P09: operands of wrong types are rejected, right ones accepted."""
from rules.typing import *
from report import pmap

META = {"level": "other",
        "explanation": "Every operator, cast, call, member access, condition and return is resolved abstractly (the resolver's own source is "
                       "interpreted, its sub-expressions are opaque operands of a given value category and type) for every combination of operand "
                       "types in the catalogue; acceptance or rejection on every path is compared with the constraints of C11 6.5 / 6.8.",
        "assumptions": ["operand types are drawn from a catalogue with one representative per class of types the resolver's predicates can "
                        "tell apart (all integer types, pointers to object, void, incomplete and function types, arrays, structures, functions)",
                        "null pointer constants, void pointer mixing in == and ?:, structure assignment and void ?: void are outside the "
                        "supported language and not judged"]}
INS = []


def one(R, i):
    ins = INS[i]
    e = ins.expected
    if e[0] == "free":
        return
    try:
        r, outs = ins.analyse()
    except Undecided as x:
        R.unk(ins.op(), ins.key, x)
        return
    R.saw(r.E.visited)
    if not outs:
        R.unk(ins.op(), ins.key, "no outcome")
        return
    for o in outs:
        if o.srt is None and not o.errs:
            R.bad(ins.op(), ins.key, "src/resolver", "neither a result nor a diagnostic is produced")
            return
        if e[0] == "rej" and o.srt is not None:
            R.bad(ins.op(), ins.key, "src/resolver/expression.c" if ins.root == "resolve_expr" else "src/resolver/statement.c",
                  "C forbids these operand types, but the resolver accepts them as\n%s" % t_str(srt_show(o.srt)))
            return
        if e[0] == "acc" and o.srt is None:
            R.bad(ins.op(), ins.key, "src/resolver/expression.c" if ins.root == "resolve_expr" else "src/resolver/statement.c",
                  "C allows these operand types, but the resolver rejects them: %s" % "; ".join(map(str, o.errs)))
            return
    R.ok(ins.op(), ins.key)


def run(R, tier):
    need("resolve_expr")
    need("resolve_stmt")
    INS[:] = list(all_instances(tier))
    pmap(R, one, [(i,) for i in range(len(INS))])

#!/usr/bin/env python3
"""usage: run.py <property> [--tier quick|thorough]   exit 0 holds, 1 violated, 2 the analysis could not be carried out"""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    import report, front, lab
    VERIF = report.VERIF
    R = report.Report(a.prop)
    floors = json.load(open(os.path.join(HERE, "floors.json"))) if os.path.exists(os.path.join(HERE, "floors.json")) else {}
    try:
        mod = importlib.import_module("rules." + a.prop.lower())
        P = lab.prog()
        if P.errors:
            print("ANALYSIS-BROKEN: the sources do not parse: %s" % (P.errors[:2],))
            return 2
        mod.run(R, a.tier)
    except lab.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    known = report.known_findings(a.prop)
    new, listed = [], []
    for v in R.viol:
        k = next((k for k in known if k["rule"] == v["rule"] and k["key"] == v["key"]), None)
        (listed if k else new).append((v, k))
    floor = floors.get(a.prop, 1)
    if R.total() < floor:
        print("ANALYSIS-BROKEN: %d obligations found, at least %d expected" % (R.total(), floor))
        return 2
    if not any(v[0] for v in R.oblig.values()) and not R.viol:
        print("ANALYSIS-BROKEN: none of %d rule instances could be decided: %s" % (R.total(), R.undecided[:2]))
        return 2
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    disc = sum(x[0] for x in R.oblig.values())
    meta = getattr(mod, "META", {})
    level = meta.get("level", "other")
    und = len(R.undecided)
    expl = ("%s Rule instances decided: %d held, %d violated (%d of them listed known findings), %d undecided "
            "(not counted as held). Functions of /repo analysed in this run: %d, call sites: %d." %
            (meta.get("explanation", ""), disc, len(R.viol), len(listed), und, len(R.functions), len(R.sites)))
    cov = {"explanation": expl, "obligations": R.total(), "discharged": disc,
           "rules": {k: {"held": v[0], "violated": v[1], "undecided": v[2], "samples": R.samples.get(k, [])}
                     for k, v in sorted(R.oblig.items())},
           "functions_analysed": sorted(R.functions), "undecided": R.undecided[:200], "notes": R.notes[:100],
           "translation_units": len(P.tus)}
    if level == "proof":
        cov["checker_cmd"] = "python3 sa/run.py %s --tier %s" % (a.prop, a.tier)
        cov["trusted_base"] = meta.get("trusted", [])
    seed = os.environ.get("VERIF_SEED", "1")
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": int(seed) if seed.lstrip("-").isdigit() else 0, "level": level, "coverage": cov,
          "wall_s": round(time.time() - R.t0, 3), "assumptions": meta.get("assumptions", []),
          "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for v, k in listed:
        if (v["rule"], v["key"]) in seen:
            continue
        seen.add((v["rule"], v["key"]))
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (a.prop, v["where"], v["key"], k["what"]))
    if a.verbose:
        for r, c in sorted(R.oblig.items()):
            print("  rule %-40s held %d violated %d undecided %d" % (r, *c))
        for u in R.undecided[:40]:
            print("  undecided", u)
    if new:
        rp = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, a.prop + ".txt")
        with open(path, "w") as f:
            for v, _ in new:
                f.write("property %s\nrule     %s\ninstance %s\nwhere    %s\n%s\n\n" %
                        (a.prop, v["rule"], v["key"], v["where"], v["detail"]))
            f.write("to replay: cd /verif && python3 sa/run.py %s --tier %s --verbose\n" % (a.prop, a.tier))
        for v, _ in new[:20]:
            print("  %s: rule %s, instance %s\n%s" % (v["where"], v["rule"], v["key"],
                                                     "\n".join("      " + l for l in str(v["detail"]).split("\n")[:14])))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("%s: %d rule instances, %d held, %d undecided, %d known findings (%.1f s)" %
          (a.prop, R.total(), disc, und, len(listed), time.time() - R.t0))
    return 0


RC = [2]


def wrapper():
    try:
        RC[0] = main()
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        RC[0] = 2


if __name__ == "__main__":
    t = threading.Thread(target=wrapper)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0])

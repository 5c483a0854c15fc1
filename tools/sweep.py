#!/usr/bin/env python3
"""Runs checks against every planted change, each applied to a private copy of /repo, and records which checks report it in
seeded/RESULTS.json (read by tools/design.py only).   usage: sweep.py [--all-checks] [id ...]"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all-checks" in sys.argv
out = os.path.join(V, "seeded/RESULTS.json")
res = json.load(open(out)) if os.path.exists(out) else {}
claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
for b in ids or sorted(os.listdir(os.path.join(V, "seeded"))):
    d = os.path.join(V, "seeded", b)
    if not os.path.exists(os.path.join(d, "meta.json")):
        continue
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = "/tmp/sweep.%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], check=True)
    caught = []
    for p in (claimed if every else [prop]):
        r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && exec python3 sa/run.py %s --tier quick" % (w, p)], cwd=V, capture_output=True, text=True)
        if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout:
            caught.append(p)
        print(b, prop, p, r.returncode, flush=True)
    shutil.rmtree(w)
    res[b] = caught or ["none"]
    json.dump(res, open(out, "w"), indent=1, sort_keys=True)

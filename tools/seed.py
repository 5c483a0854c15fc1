#!/usr/bin/env python3
"""Plants one bug described by a spec module (python file) and records it under seeded/ after confirming it:
spec: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], and either PROG (C text) + EXPECT (stdout of the linked program, or
"REJECT"), or DEMO (shell text).   usage: seed.py spec.py [check ids...]"""
import json, os, shutil, subprocess, sys, runpy
REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = '#include <stdio.h>\nvoid pi(int x) { printf("%d\\n", x); }\nvoid pl(long x) { printf("%ld\\n", x); }\nvoid ps(char *s) { printf("%s\\n", s); }\n'
DEMO = '''#!/bin/bash
# compiles prog.c with the built compiler, links it, runs it and compares its output with expected.txt
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here/prog.c" "$t/prog.c"
bin=$PWD/_build/bin/umlcc
cd "$t" || exit 2
if ! timeout 20 "$bin" prog.c >compile.log 2>&1; then
    echo REJECT >out
else
    gcc -no-pie -z noexecstack prog.s "$here/lib.c" -o prog >link.log 2>&1 || { echo LINKFAIL >out; }
    [ -x prog ] && timeout 20 ./prog >out 2>/dev/null; echo "status $?" >>out
fi
diff "$here/expected.txt" out
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    m = runpy.run_path(sys.argv[1])
    specs = m["SPECS"] if "SPECS" in m else [m]
    for sp in specs:
        one(sp)


def one(m):
    d = os.path.join(VERIF, "seeded", m["ID"])
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
    tmp = "/tmp/seed_" + m["ID"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        for f, old, new in m["EDITS"]:
            t = open(os.path.join(REPO, f)).read()
            assert t.count(old) == 1, "%s: %d matches of %r" % (f, t.count(old), old)
            open(os.path.join(REPO, f), "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(tmp + "/patch.diff", "w").write(diff)
        if "PROG" in m:
            open(tmp + "/prog.c", "w").write(m["PROG"])
            open(tmp + "/lib.c", "w").write(LIB)
            open(tmp + "/expected.txt", "w").write(m["EXPECT"])
            open(tmp + "/demo.sh", "w").write(DEMO)
        else:
            open(tmp + "/demo.sh", "w").write(m["DEMO"])
            for n, c in m.get("FILES", {}).items():
                open(os.path.join(tmp, n), "w").write(c)
        json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(tmp + "/meta.json", "w"), indent=1)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(m["ID"], "BUILD FAILS", [l for l in b.stderr.split("\n") if "error" in l][:3])
            return
        sh("bash /opt/vp/test.sh /dev/null")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"] if "stable" in json.load(open("/opt/vp/BASELINE.json")) else [])
        t = sh("/tmp/t.sh").stdout.strip().split("\n")[-1]
        if "passed 1196" not in t:
            print(m["ID"], "TESTS FAIL", t[:300])
            return
        dm = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        c = sh("python3 sa/run.py %s" % m["PROP"], cwd=VERIF)
        print(m["ID"], m["PROP"], "demo rc", dm.returncode, "check rc", c.returncode, "|",
              dm.stdout.strip().replace("\n", "; ")[:160])
        caught = c.returncode
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    dm0 = sh("bash %s/demo.sh" % tmp, cwd=REPO)
    if dm0.returncode != 0:
        print(m["ID"], "DEMO FAILS ON CLEAN TREE:", dm0.stdout[:300], dm0.stderr[:200])
        return
    if dm.returncode == 0:
        print(m["ID"], "DEMO DOES NOT NOTICE")
        return
    shutil.rmtree(d, ignore_errors=True)
    shutil.move(tmp, d)


main()

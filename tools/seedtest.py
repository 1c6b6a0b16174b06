#!/usr/bin/env python3
"""Development tool (not a check): validates planted bugs.  seedtest.py [--no-test] [--no-check] id...
For each seeded/<id>: applies the patch to /repo, builds, runs the repository's tests, demo (must fail), the property's
check (reports whether it catches it), reverts, and (at the end) rebuilds and runs the demos on the unchanged tree (must pass)."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = sys.argv[1:]; notest = "--no-test" in args; nocheck = "--no-check" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
bad = 0
for i in ids:
    d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json"))
    r = sh("git -C /repo apply " + d + "/patch.diff")
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); bad += 1; continue
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "BUILD FAILS", b.stdout[-1500:]); bad += 1; continue
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/st.json"); t = json.load(open("/tmp/st.json"))
            if t["failed"] or len(t["passed"]) < 412: print(i, "TESTS FAIL", t["failed"][:5], len(t["passed"])); bad += 1; continue
        r = sh("bash " + d + "/demo.sh", cwd="/repo")
        if r.returncode == 0: print(i, "DEMO DOES NOT FAIL"); bad += 1
        else: print(i, "demo fails as intended:", r.stdout.strip()[-150:])
        if not nocheck:
            c = sh("python3 tools/check.py " + m["property"], cwd=V, env=dict(os.environ, VERIF_SEED="1"))
            caught = c.returncode == 1 and "VIOLATION property=" + m["property"] in c.stdout
            print(i, m["property"], "CAUGHT" if caught else "*** MISSED rc=%d" % c.returncode, c.stdout.strip()[:300])
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
for i in ids:
    r = sh("bash " + V + "/seeded/" + i + "/demo.sh", cwd="/repo")
    if r.returncode: print(i, "DEMO FAILS ON THE UNCHANGED TREE", r.stdout[-800:]); bad += 1
print("bad:", bad)

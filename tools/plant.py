"""Make a planted change: plant.py SPEC.py [check...]   (never used by a check)

SPEC.py defines: id, property, edits=[(file, old, new)...], needs, what, demo (python source).
Works in a scratch copy of /repo, which it removes.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/scr-%d" % os.getpid()
PY = "/opt/venv/bin/python"

spec = {}
exec(open(sys.argv[1]).read(), spec)
checks = sys.argv[2:] or [spec["property"]]
out = os.path.join(HERE, "seeded", spec["id"])
os.makedirs(out, exist_ok=True)
with open(os.path.join(out, "demo.py"), "w") as f:
    f.write(spec["demo"].lstrip("\n"))
with open(os.path.join(out, "demo.sh"), "w") as f:
    f.write('#!/bin/bash\n# run in the repository: 0 = the property holds, 1 = broken\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
with open(os.path.join(out, "meta.json"), "w") as f:
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, f, indent=1)
    f.write("\n")

BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()
subprocess.run(["cp", "-a", "/repo", SCR], check=True)
ok = True
try:
    for name, old, new in spec["edits"]:
        p = os.path.join(SCR, name)
        s = open(p).read()
        if s.count(old) != 1:
            print("edit of", name, "matches", s.count(old), "times")
            sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", SCR, "diff"], capture_output=True, text=True).stdout
    with open(os.path.join(out, "patch.diff"), "w") as f:
        f.write(diff)
    # the lines it changes must be original ones
    import re
    for name in set(e[0] for e in spec["edits"]):
        d = subprocess.run(["git", "-C", SCR, "diff", "-U0", name], capture_output=True, text=True).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", name], capture_output=True, text=True).stdout
                for line in b.splitlines():
                    if "d4621c0" not in line.split(")")[0]:
                        print("NOT ORIGINAL:", line)
            else:
                print("pure insertion at", a)
    def demo(where):
        return subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=where, capture_output=True, text=True, timeout=300)
    r = demo("/repo")
    if r.returncode != 0:
        ok = False
        print("DEMO FAILS on the unchanged tree", r.stdout, r.stderr[-2000:])
    r = demo(SCR)
    if r.returncode == 0:
        ok = False
        print("DEMO PASSES with the patch")
    else:
        print("demo with patch:", (r.stdout + r.stderr).strip().splitlines()[-1:])
    t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--tb=line", "-o", "junit_family=xunit2", "--junitxml=" + SCR + "/j.xml", "tests"], cwd=SCR,
                       env=dict(os.environ, PYTHONPATH=SCR, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1"), capture_output=True, text=True)
    subprocess.run(["python3", "/opt/vp/results.py", SCR + "/o.json", "junit:" + SCR + "/j.xml"], capture_output=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(json.load(open(SCR + "/o.json"))["passed"])
    missing = sorted(stable - passed)
    print("tests:", len(stable & passed), "of", len(stable), missing[:4])
    ok = ok and not missing
    for c in checks:
        r = subprocess.run(["bash", os.path.join(HERE, "run.sh"), "check", c], env=dict(os.environ, DST_REPO=SCR, VERIF_SEED="1"), capture_output=True, text=True)
        lines = (r.stdout + r.stderr).strip().splitlines()
        print("CHECK", c, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION") for l in lines) else "MISSED")
        for l in lines[1:4] + lines[-1:]:
            print("    ", l[:300])
finally:
    shutil.rmtree(SCR, ignore_errors=True)
print(spec["id"], "OK" if ok else "NOT VALID")

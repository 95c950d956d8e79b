"""cluster what a check finds: cluster.py PROP RUNS BASE (count, base, first run, class)"""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runner
from dst.checks import load

c = load(sys.argv[1])
runner.check_worker_init(c)
base = int(sys.argv[3])
found = {}
for i in range(int(sys.argv[2])):
    out = runner.guarded(c, runner.plan_for(c, base, i, "quick"), keep=False)
    if out.status == "ok":
        continue
    d = out.detail
    m = re.search(r"[A-Z]\w*(Error|Exception|Warning|StopIteration|Interrupt)\b.*", d)
    d = m.group(0)[:70] if m else re.sub(r"[\[({].*", "", d)[:60]
    key = (out.status, out.vclass, re.sub(r"\d+", "N", d))
    e = found.setdefault(key, [0, i])
    e[0] += 1
for k, (n, i) in found.items():
    print(n, base, i, k)

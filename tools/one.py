"""minimise given runs of a check: one.py PROP BASE RUN..."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runner
from dst.checks import load

c = load(sys.argv[1])
runner.check_worker_init(c)
for i in sys.argv[3:]:
    plan = runner.plan_for(c, int(sys.argv[2]), int(i), "quick")
    out = runner.guarded(c, plan, keep=False)
    if out.status != "ok":
        small, n = runner.minimise(c, plan, out.vclass, budget=15)
        out = runner.guarded(c, small)
        print(i, out.status, out.vclass, out.detail)
        print(json.dumps(small))
        print("\n".join(out.tb.split("During handling")[0].splitlines()[-14:]))

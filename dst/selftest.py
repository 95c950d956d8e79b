"""Is one seed one execution?  The same plans in other processes, in another
order, with other contents of the environment (the hash seed is fixed: run.sh): the logs
must be the same, event for event."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def hashes(prop, runs, hashseed, extra):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), **extra)
    r = subprocess.run(["bash", os.path.join(HERE, "run.sh"), "hashes", prop, "--runs", str(runs)], capture_output=True, text=True, env=env)
    return [l for l in r.stdout.splitlines() if l.startswith(prop + " ")]


def selftest(props, runs):
    props = props or ["C%02d" % i for i in range(1, 23)]
    bad = 0
    for prop in props:
        one = hashes(prop, runs, 0, {})
        two = hashes(prop, runs, 0, {"DST_SELFTEST": "x" * 1000, "TMPDIR": os.environ.get("DST_TMP2", "/dev/shm")})
        differ = [(a, b) for a, b in zip(one, two) if a != b]
        if len(one) != runs or len(two) != runs or differ:
            bad += 1
            print("{0}: {1} of {2} runs differ ({3} and {4} done)".format(prop, len(differ), runs, len(one), len(two)))
            for a, b in differ[:3]:
                print("   ", a, "|", b)
        else:
            print("{0}: {1} runs, twice the same".format(prop, runs))
        sys.stdout.flush()
    return 2 if bad else 0

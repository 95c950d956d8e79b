import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "hashes", "selftest", "setup", "gen"])
    ap.add_argument("what", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--maxwall", type=float, default=None)
    a = ap.parse_args()
    base = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"

    import awkward0
    repo = os.environ.get("DST_REPO", "/repo")
    if not os.path.abspath(awkward0.__file__).startswith(repo + os.sep):
        print("ERROR: awkward0 was imported from {0}".format(awkward0.__file__))
        return 2

    from dst import runner
    from dst.checks import load
    if a.cmd == "setup":
        print("awkward0 {0} from {1}".format(awkward0.__version__, awkward0.__file__))
        return 0
    if a.cmd == "check":
        check = load(a.what[0])
        maxwall = a.maxwall or (420.0 if tier == "quick" else 780.0)
        return runner.do_check(check, tier, base, a.runs, a.procs, maxwall)
    if a.cmd == "replay":
        import json
        with open(a.what[0]) as f:
            prop = json.load(f)["property"]
        return runner.do_replay({prop: load(prop)}, os.path.abspath(a.what[0]))
    if a.cmd == "hashes":
        return runner.do_hashes(load(a.what[0]), base, tier, a.runs or 50)
    if a.cmd == "gen":
        import json
        check = load(a.what[0])
        for i in range(a.runs or 1):
            print(json.dumps(runner.plan_for(check, base, i, tier)))
        return 0
    if a.cmd == "selftest":
        from dst.selftest import selftest
        return selftest(a.what, a.runs or 60)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("ERROR: harness failure")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

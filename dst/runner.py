"""Seeded search, minimisation, replay and evidence."""
import collections
import gc
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from dst import simmem
from dst.core import Hang, Rng, run_plan, seedof

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WATCHDOG = 45.0


def _alarm(signum, frame):
    raise Hang()


def guarded(check, plan, keep=True, limit=WATCHDOG):
    """run_plan under the watchdog (main thread of a worker only)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return run_plan(check, plan, keep)
    except Hang:
        from dst.core import Ctx, Outcome
        return Outcome("hang", check.prop + ":no-progress", "watchdog", Ctx(), "")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def plan_for(check, base, index, tier):
    rng = Rng(seedof(base, check.prop, index))
    plan = check.gen(rng, tier)
    plan.setdefault("mem", index % simmem.FILLS)
    return json.loads(json.dumps(plan))


_CHECK = None


def _init(check):
    global _CHECK
    _CHECK = check
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    check_worker_init(check)


def check_worker_init(check):
    init = getattr(check, "worker_init", None)
    if init is not None:
        init()
    gc.collect()
    gc.freeze()         # what exists now is no garbage: later collections look at the simulated run only


def _chunk(job):
    base, tier, indexes, deadline = job
    check = _CHECK
    agg = {"runs": 0, "steps": 0, "checks": 0, "faults": collections.Counter(), "probes": collections.Counter(),
           "sigs": set(), "states": set(), "bad": [], "nontrivial": 0, "loghash": hashlib.sha1(), "samples": []}
    for i in indexes:
        if time.monotonic() > deadline:
            break
        plan = plan_for(check, base, i, tier)
        keep = i < 2
        out = guarded(check, plan, keep=keep)
        if out.status == "hang":
            # once more, alone: only a repeated stall counts
            out2 = guarded(check, plan, keep=False)
            if out2.status != "hang":
                out = out2
        ctx = out.ctx
        agg["runs"] += 1
        agg["steps"] += ctx.steps
        agg["checks"] += ctx.checks
        agg["faults"].update(ctx.faults)
        agg["probes"].update(ctx.probes)
        agg["states"].add(ctx.schedhash())
        agg["loghash"].update(ctx.loghash().encode())
        if ctx.nontrivial:
            agg["nontrivial"] += 1
            agg["sigs"].add(ctx.schedhash())
        if out.status != "ok":
            agg["bad"].append((i, out.status, out.vclass, out.detail, out.tb))
        elif keep:
            agg["samples"].append({"run": i, "seed": seedof(base, check.prop, i), "plan": plan, "events": ctx.events[:60]})
        if agg["bad"]:
            break
    agg["loghash"] = agg["loghash"].hexdigest()
    return indexes[0], agg


def search(check, base, tier, runs, procs, maxwall):
    t0 = time.monotonic()
    deadline = t0 + maxwall
    chunk = max(1, min(100, runs // (procs * 6) or 1))
    jobs = []
    for start in range(0, runs, chunk):
        jobs.append((base, tier, list(range(start, min(runs, start + chunk))), deadline))
    total = {"runs": 0, "steps": 0, "checks": 0, "faults": collections.Counter(), "probes": collections.Counter(),
             "sigs": set(), "states": set(), "bad": [], "nontrivial": 0, "samples": [], "hashes": {}}

    def merge(first, agg):
        for n in ("runs", "steps", "checks", "nontrivial"):
            total[n] += agg[n]
        total["faults"].update(agg["faults"])
        total["probes"].update(agg["probes"])
        total["sigs"] |= agg["sigs"]
        total["states"] |= agg["states"]
        total["bad"].extend(agg["bad"])
        total["samples"].extend(agg["samples"])
        total["hashes"][first] = agg["loghash"]

    if procs <= 1:
        _init(check)
        for job in jobs:
            merge(*_chunk(job))
            if total["bad"]:
                break
    else:
        mp = multiprocessing.get_context("fork")
        pool = mp.Pool(procs, _init, (check,))
        try:
            pids = set(p.pid for p in pool._pool)
            it = pool.imap(_chunk, jobs)
            while True:
                try:
                    first, agg = it.next(timeout=5)
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    if set(p.pid for p in pool._pool) != pids:
                        raise RuntimeError("a worker process died")
                    if time.monotonic() > deadline + 3 * WATCHDOG:
                        raise RuntimeError("workers stalled")
                    continue
                merge(first, agg)
                if agg["bad"]:
                    break
        finally:
            pool.terminate()
            pool.join()
    total["wall"] = time.monotonic() - t0
    total["bad"].sort(key=lambda x: x[0])
    return total


# --------------------------------------------------------------------------- minimisation

def _children(plan):
    """candidate simplifications of a JSON plan, most aggressive first"""
    ops = plan.get("ops")
    if isinstance(ops, list):
        n = len(ops)
        size = n // 2
        while size >= 1:
            for start in range(0, n, size):
                yield dict(plan, ops=ops[:start] + ops[start + size:])
            size //= 2
    for key in ("faults", "sched"):
        lst = plan.get(key)
        if isinstance(lst, list):
            n = len(lst)
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    yield dict(plan, **{key: lst[:start] + lst[start + size:]})
                size //= 2
    # drop faults attached to operations
    if isinstance(ops, list):
        for i, op in enumerate(ops):
            if isinstance(op, dict):
                for k in ("fault", "faults", "evict"):
                    if op.get(k):
                        new = dict(op)
                        del new[k]
                        yield dict(plan, ops=ops[:i] + [new] + ops[i + 1:])
    # shrink inside
    for new in _shrink_value(plan, 0):
        yield new


def _shrink_value(x, depth):
    if depth > 14:
        return
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x not in (0, 1):
            yield 0
            yield x // 2 if x > 0 else -((-x) // 2)
            yield x - 1 if x > 0 else x + 1
        elif x == 1:
            yield 0
    elif isinstance(x, list):
        n = len(x)
        if n > 3:
            yield x[: n // 2]
            yield x[n // 2:]
        for i in range(n):
            yield x[:i] + x[i + 1:]
        for i in range(n):
            for y in _shrink_value(x[i], depth + 1):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in list(x):
            for y in _shrink_value(x[k], depth + 1):
                new = dict(x)
                new[k] = y
                yield new


def minimise(check, plan, vclass, budget=25.0, tries=3000):
    t0 = time.monotonic()
    n = 0
    best = plan
    improved = True
    while improved and time.monotonic() - t0 < budget and n < tries:
        improved = False
        for cand in _children(best):
            if time.monotonic() - t0 > budget or n >= tries:
                break
            n += 1
            try:
                out = guarded(check, cand, keep=False, limit=10.0)
            except Exception:
                continue
            if out.status in ("violation",) and out.vclass == vclass:
                best = cand
                improved = True
                break
    return best, n


def _minimise_job(q, check, plan, vclass, hang):
    try:
        check_worker_init(check)
        if hang:
            q.put((plan, 0))
        else:
            q.put(minimise(check, plan, vclass))
    except BaseException:
        traceback.print_exc()
        q.put((plan, -1))


def minimise_forked(check, plan, vclass, hang):
    mp = multiprocessing.get_context("fork")
    q = mp.Queue()
    p = mp.Process(target=_minimise_job, args=(q, check, plan, vclass, hang))
    p.start()
    try:
        out = q.get(timeout=90)
    except Exception:
        out = (plan, -1)
    p.terminate()
    p.join()
    return out


# --------------------------------------------------------------------------- known findings

def known_findings(prop):
    """lines `finding: property=<id> id=<KF..> signature=<class> plan=<file> | what`"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    head, what = line[len("finding: "):].split(" | ", 1)
                    d = dict(x.split("=", 1) for x in head.split())
                    if d["property"] == prop:
                        d["what"] = what
                        out.append(d)
    return out


# --------------------------------------------------------------------------- the check command

def write_evidence(check, tier, base, total, wall, violations, extra):
    path = os.path.join(HERE, "evidence", check.prop + ".json")
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    rate = total["runs"] / total["wall"] * 3600 if total["wall"] > 0 else 0
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["sigs"]),
        "rule": check.rule,
        "samples": total["samples"][:2],
        "oracle_comparisons": total["checks"],
        "nontrivial_runs": total["nontrivial"],
        "distinct_interleavings": len(total["states"]),
        "interleaving_measure": "distinct hashes over the ordered sequence of simulator events of a run (operations, external calls, faults, evictions, context switches)",
        "simulated_steps": total["steps"],
        "simulated_time": "the code has no clock: time is counted in simulator events (simulated_steps)",
        "runs_per_hour": round(rate),
        "seeds_per_hour": round(rate),
        "faults_injected": dict(sorted(total["faults"].items())),
        "probes": dict(sorted(total["probes"].items())),
        "components_real": check.real,
        "components_stub": check.stub,
    }
    cov.update(extra)
    with open(path, "w") as f:
        json.dump({
            "property": check.prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
            "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations,
        }, f, indent=1, sort_keys=True)
        f.write("\n")


def do_check(check, tier, base, runs, procs, maxwall):
    t0 = time.monotonic()
    if runs is None:
        runs = check.quick_runs if tier == "quick" else check.thorough_runs
    print("DST property={0} tier={1} VERIF_SEED={2} runs={3} procs={4}".format(check.prop, tier, base, runs, procs))
    sys.stdout.flush()

    # listed findings: each is one fixed history, replayed on every run
    extra = {"known_findings": []}
    for kf in known_findings(check.prop):
        with open(os.path.join(HERE, kf["plan"])) as f:
            plan = json.load(f)["plan"]
        check_worker_init(check)
        out = guarded(check, plan)
        if out.status in ("violation", "hang") and out.vclass == kf["signature"]:
            print("KNOWN-FINDING: property={0} {1} {2}".format(check.prop, kf["id"], kf["what"]))
            extra["known_findings"].append(kf["id"])
        elif out.status == "ok":
            print("note: listed finding {0} does not reproduce on this tree".format(kf["id"]))
        elif out.status in ("violation", "hang"):
            return report(check, tier, base, plan, -1, out.vclass, out.detail, out.tb, out.status,
                          empty_total(), t0, extra)
        else:
            print("ERROR: harness failure in finding {0}: {1}\n{2}".format(kf["id"], out.detail, out.tb))
            return 2

    # fixed regression histories (past failures), replayed first
    regress = os.path.join(HERE, "corpus", check.prop)
    nreg = 0
    if os.path.isdir(regress):
        check_worker_init(check)
        for name in sorted(os.listdir(regress)):
            with open(os.path.join(regress, name)) as f:
                plan = json.load(f)["plan"]
            out = guarded(check, plan)
            nreg += 1
            if out.status in ("violation", "hang"):
                return report(check, tier, base, plan, -1, out.vclass, out.detail, out.tb, out.status,
                              empty_total(), t0, extra)
            elif out.status == "harness":
                print("ERROR: harness failure in {0}: {1}\n{2}".format(name, out.detail, out.tb))
                return 2
    extra["regression_histories_replayed"] = nreg

    total = search(check, base, tier, runs, procs, maxwall)
    for i, status, vclass, detail, tb in total["bad"]:
        if status in ("violation", "hang"):
            plan = plan_for(check, base, i, tier)
            return report(check, tier, base, plan, i, vclass, detail, tb, status, total, t0, extra)
    for i, status, vclass, detail, tb in total["bad"]:
        print("ERROR: {0} in run {1}: {2}\n{3}".format(status, i, detail, tb))
        return 2
    if total["runs"] < min(runs, 50):
        print("ERROR: only {0} of {1} runs completed".format(total["runs"], runs))
        return 2
    missing = [p for p in getattr(check, "required_probes", []) if not total["probes"].get(p) and not total["faults"].get(p)]
    if missing and total["runs"] >= 500:
        # a workload that no longer reaches what it is for decides nothing: say so in the evidence
        print("note: probes never hit: {0}".format(", ".join(missing)))
        extra["probes_never_hit"] = missing
    write_evidence(check, tier, base, total, time.monotonic() - t0, 0, extra)
    print("OK property={0}: {1} runs, {2} distinct non-trivial, {3} oracle comparisons, faults {4}, {5:.1f}s".format(
        check.prop, total["runs"], len(total["sigs"]), total["checks"], dict(total["faults"]), time.monotonic() - t0))
    return 0


def empty_total():
    return {"runs": 1, "steps": 0, "checks": 0, "faults": collections.Counter(), "probes": collections.Counter(),
            "sigs": set(), "states": set(), "bad": [], "nontrivial": 0, "samples": [], "wall": 0.001, "hashes": {}}


def report(check, tier, base, plan, index, vclass, detail, tb, status, total, t0, extra):
    small, tries = minimise_forked(check, plan, vclass, status == "hang")
    out = guarded(check, small) if status != "hang" else None
    if out is not None and out.status != "violation":
        small = plan
        out = guarded(check, small)
    rep = {
        "property": check.prop, "verif_seed": base, "run": index,
        "run_seed": seedof(base, check.prop, index) if index >= 0 else None,
        "vclass": vclass, "detail": out.detail if out is not None else detail,
        "plan": small, "original_ops": len(plan.get("ops", [])), "minimised_ops": len(small.get("ops", [])),
        "minimiser_executions": tries,
        "events": out.ctx.events if out is not None else [],
        "loghash": out.ctx.loghash() if out is not None else None,
        "traceback": out.tb if out is not None else tb,
    }
    d = os.path.join(HERE, "replays")
    if not os.path.isdir(d):
        os.makedirs(d)
    path = os.path.join(d, "{0}-{1}-{2}.json".format(check.prop, base, index if index >= 0 else "fixed"))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
        f.write("\n")
    print("violation class: {0}\n  {1}".format(vclass, rep["detail"]))
    print("  run {0} (seed {1}); minimised to {2} operations".format(index, rep["run_seed"], rep["minimised_ops"]))
    print("  replay with: bash {0}/run.sh replay {1}".format(HERE, path))
    for line in rep["events"][-25:]:
        print("    | " + line)
    if out is not None and ("unexpected-exception" in vclass or "uninterpretable" in vclass):
        print(out.tb)
    if total["runs"] == 0:
        total = empty_total()
    if not total["samples"]:
        total["samples"] = [{"plan": small}]
    write_evidence(check, tier, base, total, time.monotonic() - t0, 1, extra)
    print("VIOLATION property={0} replay={1}".format(check.prop, path))
    return 1


def do_replay(checks, path):
    with open(path) as f:
        rep = json.load(f)
    check = checks[rep["property"]]
    check_worker_init(check)
    out = guarded(check, rep["plan"])
    for line in out.ctx.events:
        print("  | " + line)
    print("status={0} class={1}\n  {2}".format(out.status, out.vclass, out.detail))
    if out.tb:
        print(out.tb)
    if out.status in ("violation", "hang"):
        same = out.vclass == rep.get("vclass") and (rep.get("loghash") in (None, out.ctx.loghash()))
        print("reproduced exactly: {0}".format(same))
        print("VIOLATION property={0} replay={1}".format(check.prop, path))
        return 1
    return 0 if out.status == "ok" else 2


def do_hashes(check, base, tier, runs):
    """print one log hash per run: compared across processes, worker counts and hash seeds"""
    check_worker_init(check)
    for i in range(runs):
        out = guarded(check, plan_for(check, base, i, tier), keep=False)
        print(check.prop, i, out.status, out.vclass, out.ctx.loghash())
    return 0

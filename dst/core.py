"""Core of the deterministic simulator.

One integer (VERIF_SEED) decides everything.  For run i of check P the seed is
H(VERIF_SEED, P, i); the generator turns it into a *plan* (plain JSON: a
configuration, a list of operations, the faults attached to them and the
schedule); executing a plan is a pure function of the plan and of the code in
/repo.  A failing plan, minimised, is the replay file.
"""
import gc
import hashlib
import json
import os
import re
import random
import sys
import traceback

import numpy

from dst import simid, simmem

REPO = os.environ.get("DST_REPO", "/repo")
AWK = os.path.join(REPO, "awkward0") + os.sep


def scrub(text):
    """nothing that differs from one process to the next: addresses, names of scratch directories"""
    if " at 0x" in text or "/dst" in text:
        text = re.sub(r" at 0x[0-9a-f]+", " at ADDRESS", text)
        text = re.sub(r"(/[^/\s'\"]*)*/dst(17|19)?[a-z0-9_]{8}\b", "SCRATCH", text)
    return text


class Violation(Exception):
    """The property does not hold on this execution."""
    def __init__(self, vclass, detail=""):
        detail = scrub(detail)
        super(Violation, self).__init__(vclass + ": " + detail)
        self.vclass = vclass
        self.detail = detail


class PlanInvalid(Exception):
    """The plan makes no sense (only produced by the shrinker)."""


class Hang(BaseException):
    """The watchdog fired: no progress."""


class SimFault(BaseException):
    """Marker mixin: an exception injected by the simulator."""


class SimIOError(SimFault, OSError):
    pass


class SimKeyError(SimFault, KeyError):
    pass


class SimMemoryError(SimFault, MemoryError):
    pass


class SimValueError(SimFault, ValueError):
    pass


class SimRuntimeError(SimFault, RuntimeError):
    pass


class SimIndexError(SimFault, IndexError):
    pass


class SimTypeError(SimFault, TypeError):
    pass


class SimAttributeError(SimFault, AttributeError):
    pass


class SimStopIteration(SimFault, StopIteration):
    pass


class SimInterrupt(SimFault, KeyboardInterrupt):
    """Cancellation: a BaseException that is no Exception."""


class SimCrash(SimFault, BaseException):
    """The simulated process dies here."""


FAULTS = {
    "io": SimIOError,
    "key": SimKeyError,
    "mem": SimMemoryError,
    "value": SimValueError,
    "runtime": SimRuntimeError,
    "index": SimIndexError,
    "type": SimTypeError,
    "attr": SimAttributeError,
    "interrupt": SimInterrupt,
    "stop": SimStopIteration,
    "crash": SimCrash,
}


def isinjected(err):
    """err, or something in its cause/context chain, was injected."""
    seen = set()
    while err is not None and id(err) not in seen:
        if isinstance(err, SimFault):
            return True
        seen.add(id(err))
        err = err.__cause__ or err.__context__
    return False


def seedof(base, prop, index):
    h = hashlib.sha256("{0}/{1}/{2}".format(base, prop, index).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def wpick(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class Ctx(object):
    """What one simulated run records.  Recording never draws random numbers
    and never reads a clock."""

    def __init__(self, keep=True):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.checks = 0
        self.nontrivial = False
        self._keep = keep
        self._hash = hashlib.sha1()
        self._sched = hashlib.sha1()

    def log(self, *what):
        line = scrub(" ".join(str(x) for x in what))
        self._hash.update(line.encode("utf-8", "backslashreplace") + b"\n")
        if self._keep and len(self.events) < 4000:
            self.events.append(line)
        self.steps += 1

    def sched(self, *what):
        """an event that is part of the interleaving/fault signature"""
        line = " ".join(str(x) for x in what)
        self._sched.update(line.encode("utf-8", "backslashreplace") + b"\n")
        self.log(*what)

    def fault(self, kind, nontrivial=True):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        if nontrivial:
            self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def loghash(self):
        return self._hash.hexdigest()

    def schedhash(self):
        return self._sched.hexdigest()[:16]


def from_awkward(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(AWK):
            return True
        tb = tb.tb_next
    return False


class Check(object):
    prop = None
    title = ""
    quick_runs = 2000
    thorough_runs = 40000
    rule = ""
    real = []
    stub = []
    assumptions = []
    fresh_gc = True

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink_hints(self, plan):
        return None


class Outcome(object):
    __slots__ = ("status", "vclass", "detail", "ctx", "tb")

    def __init__(self, status, vclass, detail, ctx, tb=""):
        self.status, self.vclass, self.detail, self.ctx, self.tb = status, vclass, detail, ctx, tb


def short(err):
    s = "{0}: {1}".format(type(err).__name__, err)
    return s if len(s) < 400 else s[:400] + "..."


def run_plan(check, plan, keep=True):
    """Execute one plan.  status: ok | violation | harness | invalid | hang"""
    # a plan is plain data: go through JSON so that a replay sees exactly the same
    plan = json.loads(json.dumps(plan))
    ctx = Ctx(keep)
    gc.collect(1)
    wasenabled = gc.isenabled()
    gc.disable()
    sys.unraisablehook = lambda what: None      # half-built readers complain when they are freed
    simid.install()
    simid.IDS.reset(plan.get("ids", "now"))
    simmem.install()
    simmem.MEM.reset(plan.get("mem", 0) if isinstance(plan, dict) else 0)
    numpy.seterr(all="ignore")
    try:
        check.execute(plan, ctx)
        out = Outcome("ok", "", "", ctx)
    except Violation as err:
        ctx.log("VIOLATION", err.vclass)
        out = Outcome("violation", err.vclass, err.detail, ctx, traceback.format_exc())
    except PlanInvalid as err:
        out = Outcome("invalid", "", str(err), ctx)
    except Hang:
        out = Outcome("hang", check.prop + ":no-progress", "the operation did not finish (watchdog)", ctx, traceback.format_exc())
    except (Exception, SimFault) as err:
        tb = traceback.format_exc()
        if from_awkward(err.__traceback__) or isinstance(err, (RecursionError, SimFault)):
            # the code under test raised where the harness did not expect it
            vclass = check.prop + ":unexpected-exception:" + type(err).__name__
            ctx.log("VIOLATION", vclass)
            out = Outcome("violation", vclass, short(err), ctx, tb)
        elif isinstance(err, (MemoryError, OSError, ImportError, NameError)):
            out = Outcome("harness", "", short(err), ctx, tb)
        else:
            # the code under test handed back something the checker cannot read as the answer to what was asked
            vclass = check.prop + ":uninterpretable:" + type(err).__name__
            ctx.log("VIOLATION", vclass)
            out = Outcome("violation", vclass, short(err), ctx, tb)
    finally:
        if simid.IDS.reused:
            ctx.probe("id-reused", simid.IDS.reused)
        if wasenabled:
            gc.enable()
    return out

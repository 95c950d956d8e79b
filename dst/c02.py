"""C02: a failed load is a clean failure and can be retried."""
import awkward0

from dst import spec as S
from dst.c01 import C01, gen_cfg, gen_root
from dst.core import PlanInvalid, SimFault, Violation, short
from dst.lazy import OPS, World, gen_op

EXC = ["io", "io", "key", "mem", "value", "runtime", "index", "index", "type", "attr", "interrupt", "stop"]
NOFAULT = ("valid", "repr")         # these report a failure instead of raising it

# concatenate sets a failure aside in a test of its own; numpy's comparisons try once more, the other way around
NUMPY = ("concat", "argmax", "argmin", "argpick", "cut", "cmp")


class C02(C01):
    prop = "C02"
    quick_runs = 30000
    thorough_runs = 1200000
    rule = "non-trivial: an injected failure fired inside an operation; distinct by the hash of the event sequence"
    required_probes = ["gen:io", "cacheget:io", "cacheset:io", "raised", "retried"]
    assumptions = ["loaders are pure apart from injected failures", "an operation during which a failure fired raises anything (exceptions that Python itself uses to say that something ends or is not there, and failures inside of the validity check of concatenate may be set aside if the value is right)",
                   "a cache that refuses an insertion has not stored the entry"]

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = [gen_root(rng, ser, rng.pick([0.2, 0.4, 0.6])) for _ in range(rng.randrange(1, 3))]
        ops = []
        excs = [rng.pick(EXC) for _ in range(rng.randrange(1, 3))]
        for _ in range(rng.randrange(2, 9)):
            if rng.chance(0.1):
                ops.append({"op": "evictall"})
                continue
            op = gen_op(rng)
            if rng.chance(0.6):
                kinds = rng.pick([["gen"], ["gen"], ["cacheget"], ["cacheset"], ["gen", "cacheget", "cacheset"]])
                op["fault"] = {"exc": rng.pick(excs), "at": rng.wpick([(0, 5), (1, 3), (2, 2), (3, 1), (5, 1), (8, 1)]), "kinds": kinds,
                               "times": rng.wpick([(1, 4), (2, 1), (3, 1), (99, 2)])}
                op["again"] = rng.pick([0, 0, 1])
            ops.append(op)
        cfg = gen_cfg(rng)
        if rng.chance(0.5):
            cfg["evict"] = []
        plan = {"cfg": cfg, "roots": roots, "ops": ops, "ids": rng.pick(["now", "now", "later", "never"])}
        if rng.chance(0.12):
            # an array that refers to more than its lazy content has
            content = S.gen(rng, rng.randrange(1, 5), rng.randrange(0, 2), ser, allow=["num", "jag", "tab", "str"])
            n = S.length(content)
            plan["broken"] = {"k": rng.pick(["jag", "jagss", "idx", "msk", "uni"]), "c": {"k": "vir", "c": content}, "over": rng.randrange(2, 5),
                              "ops": [{"op": rng.pick(["all", "tolist", "slice", "index", "copyall", "counts", "flatten", "sum", "boolmask"]), "i": 0, "lo": 0, "hi": None,
                                       "fault": rng.pick([None, "io", "key", "mem"])} for _ in range(rng.randrange(2, 6))]}
        return plan

    @staticmethod
    def buildbroken(b, env):
        content = S.build(b["c"], env)
        n = S.length(b["c"]) + b["over"]
        k = b["k"]
        if k == "jag":
            return awkward0.JaggedArray.fromoffsets([0, 1, n], content)
        if k == "jagss":
            return awkward0.JaggedArray([0, 1], [1, n], content)
        if k == "idx":
            return awkward0.IndexedArray([0, n], content)
        if k == "msk":
            return awkward0.MaskedArray([False] * n, content)
        return awkward0.UnionArray([0, 0], [0, n], [content])

    def broken(self, b, w, ctx):
        """what is not valid stays refused, whatever failed while that was found out"""
        ops = dict(OPS, copyall=(lambda a, op, n: a.copy(), None))
        lazy = self.buildbroken(b, w)
        for step, op in enumerate(b["ops"]):
            if op["op"] not in ops:
                raise PlanInvalid("op")
            fcn = ops[op["op"]][0]
            try:
                S.norm(fcn(self.buildbroken(dict(b, c=S.strip(b["c"])), None), op, 2))
            except Exception as e:
                pass
            else:
                continue        # nothing in this operation looks at the data
            w.arm({"kinds": ["gen"], "at": 0, "exc": op["fault"]} if op.get("fault") else None)
            try:
                got = S.norm(fcn(lazy, op, 2))
            except Exception as e:
                ctx.log("broken", step, op["op"], "raised", type(e).__name__)
            else:
                raise Violation("C02:invalid-accepted", "operation {0} on an array that refers to more than its lazy content holds gave {1}; the ordinary array raises".format(op["op"], S.show(got)))
            ctx.checks += 1
            w.disarm()

    def execute(self, plan, ctx):
        w = World(ctx, plan["cfg"])
        pool = []
        for sp in plan["roots"]:
            v = S.norm(S.pyvalue(sp))
            pool.append((S.build(sp, w), S.build(S.strip(sp)), v, len(v)))
        nroots = len(pool)
        if plan.get("broken"):
            self.broken(plan["broken"], w, ctx)
        flags = tuple(any(k in S.kinds(sp) for sp in plan["roots"]) for k in ("bmsk", "tab", "reg"))
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                continue
            if name not in OPS:
                raise PlanInvalid("op")
            lazy, eager, v, n = pool[op.get("on", 0) % len(pool)]
            want = self.want(ctx, op, lazy, eager, v, n, step, *flags)
            if want is None:
                continue
            fcn, eres, enorm, known, expect = want
            ctx.sched("op", step, name)
            if op.get("fault") and name not in NOFAULT:
                for attempt in range(1 + op.get("again", 0)):
                    w.arm(op["fault"])
                    err = None
                    try:
                        lnorm = S.norm(fcn(lazy, op, n))
                    except Exception as e:
                        err = e
                    except BaseException as e:
                        if not w.fired or not isinstance(e, SimFault):
                            raise
                        err = e
                    fired = w.disarm()
                    ctx.log(step, name, "with fault:", "fired" if fired else "not fired", "raised " + type(err).__name__ if err is not None else "returned")
                    ctx.checks += 1
                    if fired:
                        ctx.probe("raised" if err is not None else "survived")
                    if err is not None and not fired:
                        raise Violation("C02:raises", "operation {0}, attempt {1}: raised {2} with no failure injected".format(self.shown(op), attempt, short(err)))
                    if err is None and fired and name not in NUMPY and not isinstance(fired[2], (LookupError, AttributeError, TypeError, StopIteration)):
                        raise Violation("C02:swallowed", "operation {0} gave {1}, although {2} failed with {3}".format(self.shown(op), S.show(lnorm), fired[0], type(fired[2]).__name__))
                    if err is None and not (S.same(lnorm, enorm) and (not known or S.same(lnorm, expect))):
                        raise Violation("C02:wrong-result" if fired else "C02:value", "operation {0}: expected {1}, got {2}{3}".format(
                            self.shown(op), S.show(enorm), S.show(lnorm), " while {0} failed with {1}".format(fired[0], type(fired[2]).__name__) if fired else ""))
                    # the exception keeps frames, and they keep arrays: a caller that handled it has let go of both
                    err = fired = None
            try:
                lres = fcn(lazy, op, n)
                lnorm = S.norm(lres)
            except Exception as err:
                raise Violation("C02:retry-raises", "operation {0}: expected {1}, raises {2}".format(self.shown(op), S.show(enorm), short(err)))
            ctx.checks += 1
            ctx.probe("retried")
            ctx.log(step, name, "=", S.show(lnorm, 300))
            if not S.same(lnorm, enorm) or (known and not S.same(lnorm, expect)):
                raise Violation("C02:retry-value", "operation {0}: expected {1}, got {2}".format(self.shown(op), S.show(enorm), S.show(lnorm)))
            if hasattr(lres, "__len__") and not isinstance(lres, (str, bytes, dict, tuple)) and len(pool) < 6 and name not in ("all", "tolist", "columns", "numpy"):
                if type(lres).__module__.startswith(("awkward0", "numpy")) and not hasattr(lres, "_table") and len(lnorm) == len(lres):
                    pool.append((lres, eres, lnorm, len(lnorm)))
        for k in range(nroots):
            lazy, eager, v, n = pool[k]
            try:
                S.norm(eager)
            except Exception:
                continue
            got = S.norm(lazy)
            ctx.checks += 1
            if not S.same(got, v):
                raise Violation("C02:final", "root {0} ends as {1}, expected {2}".format(k, S.show(got), S.show(v)))


CHECK = C02()

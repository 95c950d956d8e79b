"""C01: laziness is transparent under every eviction schedule."""
import gc

from dst import spec as S
from dst.core import Check, PlanInvalid, Violation, short
from dst.lazy import OPS, NotHere, World, gen_op

KINDS = ("num", "reg", "jag", "tab", "msk", "imsk", "bmsk", "idx", "str", "chk", "uni")


def gen_cfg(rng):
    mode = rng.wpick([("none", 1), ("sim", 5), ("lru", 3), ("dict", 1), ("drop", 1.5), ("bare", 1)])
    cfg = {"cache": mode, "opts": [rng.wpick([(0, 3), (1, 2)]) | rng.wpick([(0, 2), (2, 1)]) | rng.wpick([(0, 4), (4, 1)])
                                   | rng.wpick([(0, 6), (8, 1)]) | (rng.randrange(3) << 4) for _ in range(rng.randrange(1, 5))]}
    if mode in ("sim", "lru", "bare"):
        p = rng.pick([0.1, 0.3, 0.6])
        cfg["evict"] = [rng.pick([1, 2, 3]) if rng.chance(p) else 0 for _ in range(rng.randrange(0, 40))]
    if mode == "lru":
        cfg["capacity"] = rng.randrange(1, 4)
    if rng.chance(0.2):
        cfg["renest"] = 0
    return cfg


def gen_root(rng, ser, virtual, allow=KINDS):
    allow = [k for k in allow if k != "reg" or rng.chance(0.2)]
    sp = S.gen(rng, rng.randrange(0, 7), rng.randrange(0, 4), ser, allow=allow, virtual=virtual)
    if not S.virtuals(sp) or rng.chance(0.3):
        if sp["k"] != "vir":
            sp = {"k": "vir", "c": sp}
    return sp


REDUCERS = ("sum", "max", "min", "prod", "argmax", "argmin")


class C01(Check):
    prop = "C01"
    quick_runs = 24000
    thorough_runs = 700000
    rule = ("non-trivial: at least one eviction, lost cache write or repeated load happened between two reads of the same lazy "
            "array; distinct by the hash of the ordered event sequence (loads, cache calls, evictions)")
    real = ["awkward0.array.* (all array classes)", "VirtualArray caching protocol", "numpy"]
    stub = ["the cache (scheduled evictions, LRU of any capacity, a cache that drops everything)", "the loaders (generators)"]
    assumptions = ["loaders are pure: every call describes the same data", "an operation that raises on the eager array is not compared",
                   "results are compared by value, not by class, because a lazy array materializes to whatever its loader returns"]
    required_probes = ["evict", "reload", "nested-lazy"]

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = [gen_root(rng, ser, rng.pick([0.2, 0.4, 0.6])) for _ in range(rng.randrange(1, 3))]
        ops = []
        for _ in range(rng.randrange(2, 12)):
            r = rng.random()
            if r < 0.08:
                ops.append({"op": "evictall"})
            elif r < 0.12:
                ops.append({"op": "drop", "on": rng.randrange(6)})
            elif r < 0.15:
                ops.append({"op": "gc"})
            else:
                ops.append(gen_op(rng))
        return {"cfg": gen_cfg(rng), "roots": roots, "ops": ops, "ids": rng.pick(["now", "now", "now", "later", "never"])}

    def execute(self, plan, ctx):
        w = World(ctx, plan["cfg"])
        pool = []
        for sp in plan["roots"]:
            v = S.norm(S.pyvalue(sp))
            pool.append((S.build(sp, w), S.build(S.strip(sp)), v, len(v)))
        nroots = len(pool)
        hasbmsk = any("bmsk" in S.kinds(sp) for sp in plan["roots"])
        hastab = any("tab" in S.kinds(sp) for sp in plan["roots"])
        hasreg = any("reg" in S.kinds(sp) for sp in plan["roots"])
        loads = {}
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                elif isinstance(w.cache, dict):
                    ctx.fault("evict")
                    w.cache.clear()
                continue
            if name == "gc":
                gc.collect()
                continue
            if name == "drop":
                k = op.get("on", 0)
                if nroots <= k < len(pool):
                    del pool[k]
                continue
            if name not in OPS:
                raise PlanInvalid("op")
            lazy, eager, v, n = pool[op.get("on", 0) % len(pool)]
            want = self.want(ctx, op, lazy, eager, v, n, step, hasbmsk, hastab, hasreg)
            if want is None:
                continue
            fcn, eres, enorm, known, expect = want
            ctx.sched("op", step, name)
            before = len(w.calls)
            try:
                lres = fcn(lazy, op, n)
                lnorm = S.norm(lres)
            except Exception as err:
                raise Violation("C01:lazy-raises", "operation {0}: eager gives {1}, lazy raises {2}".format(self.shown(op), S.show(enorm), short(err)))
            ctx.checks += 1
            ctx.log(step, name, "=", S.show(lnorm, 300))
            if not S.same(lnorm, enorm) or (known and not S.same(lnorm, expect)):
                raise Violation("C01:value", "operation {0}: eager {1}, lazy {2}".format(self.shown(op), S.show(enorm), S.show(lnorm)))
            for number in w.calls[before:]:
                loads[number] = loads.get(number, 0) + 1
                if loads[number] > 1:
                    ctx.probe("reload")
                    ctx.nontrivial = True
            if hasattr(lres, "__len__") and not isinstance(lres, (str, bytes, dict, tuple)) and hasattr(eres, "__len__") and len(pool) < 6 and name not in ("all", "tolist", "columns", "numpy"):
                if type(lres).__module__.startswith(("awkward0", "numpy")) and not hasattr(lres, "_table") and len(lnorm) == len(lres):
                    pool.append((lres, eres, lnorm, len(lnorm)))
        # whatever happened, every original still reads the same
        for k in range(nroots):
            lazy, eager, v, n = pool[k]
            try:
                S.norm(eager)
            except Exception:
                ctx.probe("eager-unreadable")
                continue
            got = S.norm(lazy)
            ctx.checks += 1
            if not S.same(got, v):
                raise Violation("C01:final", "root {0} ends as {1}, expected {2}".format(k, S.show(got), S.show(v)))
        if any(len(S.virtuals(sp)) > 1 for sp in plan["roots"]):
            ctx.probe("nested-lazy")

    def want(self, ctx, op, lazy, eager, v, n, step, hasbmsk, hastab, hasreg):
        """what the operation must give: (function, eager result, its value, model known?, model value)"""
        name = op["op"]
        op["_eager"] = eager
        if hasbmsk and (name == "negfancy" or (name in ("index", "rowcol", "colrow") and not 0 <= op.get("i", 0) < n)):
            return None        # BitMaskedArray itself reads beyond its bits here
        fcn, model = OPS[name]
        if name in REDUCERS and (n == 0 or hasreg or (hastab and name in ("min", "max"))):
            return None        # the reduction of an empty array has no agreed shape (numpy and jagged code differ)
        expect = None
        known = False
        if model is not None and v is not None and name != "cols":
            try:
                expect = model(v, op, n)
                known = True
            except NotHere:
                pass
            except IndexError:
                # out of range: the lazy array has to refuse it as well
                try:
                    S.norm(fcn(eager, op, n))
                except Exception:
                    self.mustraise(ctx, lazy, fcn, op, n, step)
                return None
            except (TypeError, KeyError, AttributeError):
                pass
        try:
            eres = fcn(eager, op, n)
            enorm = S.norm(eres)
        except Exception as err:
            ctx.log(step, name, "eager-raises", type(err).__name__)
            return None
        if known and not S.same(enorm, expect):
            # the eager array itself is wrong about this: nothing to compare with
            ctx.probe("model-differs")
            return None
        return fcn, eres, enorm, known, expect

    @staticmethod
    def shown(op):
        return dict((k, x) for k, x in op.items() if k not in ("_eager", "fault", "again"))

    def mustraise(self, ctx, lazy, fcn, op, n, step):
        try:
            got = S.norm(fcn(lazy, op, n))
        except Exception as err:
            ctx.log(step, op["op"], "out-of-range", type(err).__name__)
            ctx.checks += 1
            return
        raise Violation("C01:bounds", "operation {0} on a lazy array of length {1} returned {2}".format(self.shown(op), n, S.show(got)))


CHECK = C01()

"""C19: concurrent readers see what a single reader sees."""
import os
import re
import shutil
import tempfile
import traceback

import numpy

import awkward0
import awkward0.persist
from dst import spec as S
from dst import store as T
from dst import threads
from dst.c01 import gen_cfg, gen_root
from dst.core import Check, PlanInvalid, SimFault, Violation, short
from dst.lazy import OPS, SimCache, World, gen_op

ALL = dict(OPS)
ALL.update({
    "offsets": (lambda a, op, n: (len(a), a.offsets), None),        # those of a chunked array show what is known so far
    "parents": (lambda a, op, n: a.parents, None),
    "index_": (lambda a, op, n: a.index, None),
    "fillna": (lambda a, op, n: a.fillna(7), None),
    "compact": (lambda a, op, n: a.compact(), None),
    "localindex": (lambda a, op, n: a.localindex, None),
    "rows": (lambda a, op, n: [S.norm(a[i]) for i in range(len(a))], None),
    "lastfirst": (lambda a, op, n: [S.norm(a[-1]), S.norm(a[0])], None),
    "chunksizes": (lambda a, op, n: (len(a), list(a.chunksizes)), None),
    "slices2": (lambda a, op, n: [S.norm(a[1:]), S.norm(a[:-1])], None),
    "deep": (lambda a, op, n: a.deepcopy(), None),
    "nbytes": (lambda a, op, n: (a.nbytes, None)[1], None),
    "layout": (lambda a, op, n: None if a.layout is None else True, None),
    "str": (lambda a, op, n: (len(a), re.sub(" at 0x[0-9a-f]+", "", str(a)))[1], None),
    "isvalid": (lambda a, op, n: a.valid(), None),
    "dense": (lambda a, op, n: a.dense, None),
    "inverse": (lambda a, op, n: a.invert(a.index), None),
})
NAMES = sorted(ALL)
HOT = ["len", "tolist", "index", "slice", "fancy", "all", "type", "offsets", "counts", "flatten", "astype", "fillna", "col", "rows", "lastfirst", "sum", "add1", "copy", "numpy", "chunksizes", "iterpart", "boolmask", "dense", "mask"]


class ThreadCache(SimCache):
    """a cache that is safe to use from several threads: one method at a time"""


def locked(name):
    inner = getattr(SimCache, name)

    def method(self, *args):
        sim = self.w.sim
        if sim is None:
            return inner(self, *args)
        if not sim.quiet:
            sim.point("cache." + name)
        sim.atomic += 1
        try:
            return inner(self, *args)
        finally:
            sim.atomic -= 1
    return method


for name in ("__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__", "__iter__", "keys"):
    setattr(ThreadCache, name, locked(name))


class ThreadWorld(World):
    CACHE = ThreadCache
    sim = None

    def event(self, kind, name):
        super(ThreadWorld, self).event(kind, name)
        if self.sim is not None and self.sim.current is not None and not self.sim.quiet:
            self.sim.point(kind)


class C19(Check):
    prop = "C19"
    quick_runs = 12000
    thorough_runs = 400000
    rule = "non-trivial: a thread was interrupted inside of the library at least once; distinct by the sequence of interruptions (thread, line) and cache events"
    real = ["awkward0.array.* (all array classes)", "VirtualArray caching protocol", "awkward0.persist (reading)", "Python threads", "numpy"]
    stub = ["the thread scheduler (one thread runs, handed over between lines or instructions of awkward0)", "cache", "loaders"]
    assumptions = ["threads only read; nothing is edited", "numpy and dict operations are atomic", "loaders and caches are thread-safe"]
    required_probes = ["interrupted", "three-threads", "instructions", "focused", "store", "same-array"]

    def gentight(self, rng, ser):
        n = rng.randrange(1, 5)
        k = rng.randrange(6)
        if k < 3:
            sizes = S.split(rng, n)
            first = S.gen(rng, sizes[0], rng.pick([0, 0, 1]), ser, allow=("num", "jag"))
            cs = [first] + [S.refill(first, m, rng, ser) for m in sizes[1:]]
            p = rng.pick([0, 0, 1])
            return {"k": "chk", "cs": [{"k": "vir", "c": c} if rng.chance(p) else c for c in cs], "known": 0}
        if k == 3:
            return {"k": "vir", "c": S.gen(rng, n, rng.pick([0, 1]), ser, allow=("num", "jag", "tab"))}
        return S.gen(rng, n, 1, ser, allow=("jag", "msk", "imsk", "bmsk", "idx", "uni", "tab", "str", "spa"))

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = []
        for _ in range(rng.pick([1, 1, 2])):
            r = rng.random()
            if r < 0.35:
                roots.append(gen_root(rng, ser, rng.pick([0.2, 0.4, 0.6])))
            elif r < 0.7:
                n = rng.randrange(1, 9)
                sizes = S.split(rng, n)
                first = S.gen(rng, sizes[0], rng.randrange(0, 3), ser, allow=("num", "jag", "tab", "msk", "str", "idx"))
                cs = [first] + [S.refill(first, m, rng, ser) for m in sizes[1:]]
                p = rng.pick([0, 0.5, 1])
                roots.append({"k": "chk", "cs": [{"k": "vir", "c": c} if rng.chance(p) else c for c in cs], "known": rng.pick([0, 0, 0, 1])})
            else:
                roots.append(S.gen(rng, rng.randrange(0, 7), rng.randrange(0, 4), ser, allow=("num", "jag", "tab", "msk", "imsk", "bmsk", "idx", "str", "chk", "uni", "spa"), virtual=rng.pick([0, 0.3])))
        tight = rng.chance(0.3)         # little to read, and many interleavings of it
        if tight:
            roots = [self.gentight(rng, ser)]
        nthreads = rng.wpick([(2, 5), (3, 2), (4, 1)]) if not tight else rng.pick([2, 2, 2, 3])
        store = rng.pick([0, 0, 0, 0, 1, 2]) if not tight else 0
        hot = rng.pick(HOT)
        ths = []
        for _ in range(nthreads):
            ops = []
            for _ in range(rng.randrange(1, 4) if not tight else rng.pick([1, 1, 2])):
                op = gen_op(rng)
                name = hot if rng.chance(0.4) else (rng.pick(HOT) if rng.chance(0.6) else rng.pick(NAMES))
                full = gen_op(rng, [name]) if name in OPS else {"op": name, "i": 0}
                full["on"] = rng.randrange(len(roots)) if rng.chance(0.8) else -1
                ops.append(full)
            ths.append(ops)
        return {"cfg": gen_cfg(rng), "roots": roots, "threads": ths, "store": store, "ids": rng.pick(["now", "later", "never"]),
                "tries": [self.gentry(rng) for _ in range(rng.pick([1, 2, 4]) if not tight else 12)]}

    def gentry(self, rng):
        focus = None
        if rng.chance(0.6):
            focus = [rng.randrange(24), rng.pick([1, 1, 1, 2, 99]), rng.randrange(8)]
        style = rng.random()
        if focus is not None and rng.chance(0.85):
            m = rng.pick([2, 2, 3, 3, 8, 20])
            sched = [[1 + rng.randrange(m), rng.randrange(3)] for _ in range(rng.randrange(2, 12))]
        elif style < 0.25:
            sched = [[rng.randrange(1, 4), rng.randrange(3)] for _ in range(rng.randrange(20, 300))]
        elif style < 0.5:
            sched = [[1 + int(rng.random() ** 3 * 800), rng.randrange(3)] for _ in range(rng.randrange(1, 5))]
        else:
            sched = [[1 + int(rng.random() ** 4 * rng.pick([20, 200, 1500])), rng.randrange(3)] for _ in range(rng.randrange(1, 60))]
        return {"sched": sched, "focus": focus, "instr": rng.pick([0, 0, 1])}

    # ------------------------------------------------------------------ one world
    def build(self, plan, w, dir):
        arrays = [S.build(sp, w) for sp in plan["roots"]]
        if plan.get("store"):
            if plan["store"] == 1:
                storage = {}
                for i, a in enumerate(arrays):
                    awkward0.persist.serialize(a, storage, "r%d" % i, delimiter="-")
                return [lambda i=i: awkward0.persist.deserialize(storage, "r%d" % i, whitelist=[["*"]], cache=w.cache) for i in range(len(arrays))]
            path = dir + "/s.awkd"
            awkward0.persist.save(path, dict(("r%d" % i, a) for i, a in enumerate(arrays)), mode="w")
            file = awkward0.persist.load(path, whitelist=[["*"]], cache=w.cache)
            return [lambda i=i: file["r%d" % i] for i in range(len(arrays))]
        return [lambda a=a: a for a in arrays]

    def reader(self, roots, ops, results, lens, alone):
        last = None
        for j, op in enumerate(ops):
            if op["op"] not in ALL:
                raise PlanInvalid("op")
            try:
                a = last if op["on"] == -1 and last is not None else roots[op["on"] % len(roots)]()
                if alone:
                    n = 8
                    try:
                        n = len(a)
                    except Exception as err:
                        pass
                    lens[j] = n
                n = lens.get(j, 8)          # a concurrent reader does not start by asking for the length
                op = dict(op, _eager=a)
                res = ALL[op["op"]][0](a, op, n)
                results.append(("value", S.norm(res) if not isinstance(res, str) else res))
                if isinstance(res, awkward0.AwkwardArray):
                    last = res
            except Exception as err:
                if os.environ.get("DST_TB"):
                    traceback.print_exc()
                results.append(("raises", type(err).__name__, short(err)))
            except SimFault:
                raise

    def execute(self, plan, ctx):
        if plan["store"] and any(S.virtuals(sp) for sp in plan["roots"]):
            plan = dict(plan, roots=[S.strip(sp) for sp in plan["roots"]])
        dir = tempfile.mkdtemp(prefix="dst19", dir=T.Disk.base) if plan["store"] == 2 else None
        try:
            self.go(plan, ctx, dir)
        finally:
            if dir:
                shutil.rmtree(dir, ignore_errors=True)

    def go(self, plan, ctx, dir):
        # what each thread alone gets
        expected, lens = [], []
        called = threads.Called()
        with called:
            for ops in plan["threads"]:
                w = World(type(ctx)(False), dict(plan["cfg"], evict=[]))
                roots = self.build(plan, w, dir)
                results = []
                lens.append({})
                called.on = True
                self.reader(roots, ops, results, lens[-1], True)
                called.on = False
                expected.append(results)
        for one in plan["tries"]:
            self.attempt(plan, one, ctx, dir, expected, lens, called.writers)

    def attempt(self, plan, one, ctx, dir, expected, lens, writers):
        focus = one.get("focus")
        if focus is not None and (len(focus) != 3 or not all(isinstance(x, int) and x >= 0 for x in focus)):
            raise PlanInvalid("focus")
        if focus is not None and writers:
            k, n, events = focus
            k = k % len(writers)
            focus = set((writers[k:] + writers[:k])[:n])
            ctx.probe("focused")
        else:
            focus = None
        w = ThreadWorld(ctx, plan["cfg"])
        roots = self.build(plan, w, dir)
        sim = threads.Sim(ctx, one["sched"], bool(one.get("instr")), focus)
        sim.quiet = focus is not None and events % 4 != 0
        sim.narrow = focus is not None and events >= 4
        got = [[] for _ in plan["threads"]]
        for ops, results, n in zip(plan["threads"], got, lens):
            sim.spawn(lambda ops=ops, results=results, n=n: self.reader(roots, ops, results, n, False))
        w.sim = sim
        sim.run()
        w.sim = None
        for t in sim.threads:
            if t.error is not None:
                raise t.error
        if sim.switches:
            ctx.nontrivial = True
            ctx.probe("interrupted")
            if one.get("instr"):
                ctx.probe("instructions")
        if len(sim.threads) > 2:
            ctx.probe("three-threads")
        if plan["store"]:
            ctx.probe("store")
        if len(set(op["on"] for ops in plan["threads"] for op in ops)) == 1:
            ctx.probe("same-array")
        ctx.log("lines", sim.points)
        for k, (ops, e, g) in enumerate(zip(plan["threads"], expected, got)):
            for op, x, y in zip(ops, e, g):
                if x[0] == "raises":
                    continue            # refused when reading alone: nothing to compare
                ctx.checks += 1
                ctx.log(k, op["op"], S.show(y, 120) if y[0] == "value" else y[:2])
                if y[0] == "raises":
                    raise Violation("C19:raises", "thread {0}: {1} gives {2} when it reads alone, and raises {3} next to other readers".format(k, self.shown(op), S.show(x[1]), y[2]))
                if not S.same(x[1], y[1]):
                    raise Violation("C19:value", "thread {0}: {1} gives {2} when it reads alone, and {3} next to other readers".format(k, self.shown(op), S.show(x[1]), S.show(y[1])))
        # afterwards, everything still reads
        for i, sp in enumerate(plan["roots"]):
            v = S.norm(S.pyvalue(sp))
            try:
                alone = S.norm(S.build(S.strip(sp)))
            except Exception:
                continue
            if not S.same(alone, v):
                continue
            try:
                now = S.norm(roots[i]())
            except Exception as err:
                raise Violation("C19:final", "array {0} is {1}; after being read by several threads, reading raises {2}".format(i, S.show(v), short(err)))
            ctx.checks += 1
            if not S.same(now, v):
                raise Violation("C19:final", "array {0} is {1}; after being read by several threads it reads as {2}".format(i, S.show(v), S.show(now)))

    def shown(self, op):
        return dict((k, x) for k, x in op.items() if k not in ("_eager", "fault", "again"))


CHECK = C19()

"""C04: lazy arrays sharing one cache never see each other's data."""
import gc

import awkward0
import numpy

from dst import spec as S
from dst.core import Check, PlanInvalid, Violation, short
from dst.lazy import World

KINDS = ("num", "jag", "tab", "chk", "msk", "str")


class C04(Check):
    prop = "C04"
    quick_runs = 30000
    thorough_runs = 900000
    rule = "non-trivial: an object identity was reused, or a finalizer removed an entry, while other lazy arrays were alive; distinct by event-sequence hash"
    real = ["VirtualArray keys, copies, finalizer", "all array classes as content"]
    stub = ["the cache (evictions on schedule)", "loaders", "object identity (reused at once, late or never)"]
    assumptions = ["arrays declared with the same persistent key stand for the same data", "an array's cache is not exchanged for another cache while it holds a transient key (the documentation calls that fragile)"]
    required_probes = ["id-reused", "finalized", "served-by-key", "copy", "cycle", "edited"]

    def gen(self, rng, tier):
        ser = S.Serial()
        nsp = rng.randrange(2, 6)
        specs = [S.gen(rng, rng.randrange(0, 5), rng.randrange(0, 3), ser, allow=KINDS, virtual=rng.pick([0.0, 0.2, 0.5])) for _ in range(nsp)]
        if rng.chance(0.3):
            specs[0] = S.gen(rng, rng.randrange(1, 5), 1, ser, allow=("tab",), virtual=rng.pick([0.0, 0.2]))
        ops = []
        for _ in range(rng.randrange(4, 24)):
            name = rng.wpick([("new", 5), ("read", 6), ("drop", 4), ("copy", 2), ("deepcopy", 0.5), ("copywith", 1), ("evictall", 1), ("gc", 1), ("cycle", 0.7), ("late", 0.7),
                              ("len", 1), ("type", 1), ("ismat", 0.5), ("slice", 1), ("edit", 1)])
            ops.append({"op": name, "on": rng.randrange(8), "spec": rng.randrange(nsp), "pkey": int(rng.chance(0.2)), "typed": int(rng.chance(0.25)), "gc": int(rng.chance(0.3))})
        mode = rng.wpick([("sim", 5), ("dict", 3), ("lru", 2), ("bare", 1)])
        cfg = {"cache": mode, "opts": [rng.pick([0, 0, 0, 1]) for _ in range(3)]}
        if mode in ("sim", "lru", "bare"):
            p = rng.pick([0, 0, 0.1, 0.3])
            cfg["evict"] = [rng.pick([1, 2, 3]) if rng.chance(p) else 0 for _ in range(rng.randrange(0, 30))] if p else []
        if mode == "lru":
            cfg["capacity"] = rng.randrange(1, 6)
        return {"cfg": cfg, "specs": specs, "ops": ops, "ids": rng.pick(["now", "now", "now", "later"])}

    def execute(self, plan, ctx):
        w = World(ctx, plan["cfg"])
        store = getattr(w.cache, "data", None)
        if store is None and isinstance(w.cache, dict):
            store = w.cache
        specs = plan["specs"]
        if not specs:
            raise PlanInvalid("specs")
        values = [S.norm(S.pyvalue(sp)) for sp in specs]
        handles = []
        cycles = []
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            k = op.get("spec", 0) % len(specs)
            sp = specs[k]
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                continue
            if name == "gc":
                gc.collect()
                continue
            ctx.sched("op", step, name)
            if name in ("new", "late", "cycle"):
                if len(handles) >= 7:
                    continue
                kw = {}
                if op.get("pkey") and name != "late":
                    kw["persistentkey"] = "key-%d" % k
                if op.get("typed"):
                    kw["type"] = awkward0.type.fromarray(S.build(S.strip(sp)))
                node = self.loader(w, sp, k)
                if name == "late":
                    # first without a cache, then with one
                    a = awkward0.VirtualArray(node, **kw)
                    got = S.norm(a)
                    self.compare(ctx, "first read", got, values[k])
                    a.cache = w.cache
                else:
                    a = awkward0.VirtualArray(node, cache=w.cache, **kw)
                if name == "cycle":
                    ring = [a]
                    ring.append(ring)
                    a.ring = ring       # only the garbage collector can free it
                    ctx.probe("cycle")
                    ring = None
                handles.append([a, k, kw.get("persistentkey"), None])
                a = None
                continue
            if not handles:
                continue
            i = op.get("on", 0) % len(handles)
            a, k, pkey, added = handles[i]
            if name == "drop":
                others = [(h[0], h[0].key in store) for j, h in enumerate(handles) if j != i] if store is not None else []
                alive = set(h[2] for h in handles if h[2])
                kept = set(q for q in store if isinstance(q, str)) if store is not None else set()
                iscycle = "ring" in a.__dict__
                del handles[i]
                a = None
                if op.get("gc") or not iscycle:
                    if iscycle:
                        gc.collect()
                    ctx.probe("finalized")
                    ctx.nontrivial = True
                # finalization may take away the entries of the dropped array and of what it held, nothing else
                for h, had in others:
                    ctx.checks += 1
                    if had and h.key not in store:
                        raise Violation("C04:finalizer", "dropping one array removed the cached entry of another")
                if store is not None and not kept <= set(store):
                    raise Violation("C04:persistent-entry", "dropping an array removed entries under persistent keys {0}".format(sorted(kept - set(store))))
                h = others = None
                continue
            if name in ("copy", "deepcopy", "copywith"):
                if len(handles) >= 7:
                    continue
                if name == "copy":
                    b = a.copy()
                elif name == "deepcopy":
                    b = a.deepcopy()
                else:
                    if pkey or a._type is not None or added is not None:
                        continue
                    k = op.get("spec", 0) % len(specs)
                    b = a.copy(generator=self.loader(w, specs[k], k))
                handles.append([b, k, pkey, added])
                b = None
                ctx.probe("copy")
                continue
            if name == "edit":
                # from now on an array of its own, whatever key it was declared with
                if specs[k].get("k") != "tab" or not values[k] or not values[k][0] or a._type is not None:
                    continue
                added = [op.get("on", 0) * 10 + q for q in range(len(values[k]))]
                a["w"] = numpy.array(added)
                handles[i][2:] = [None, added]
                ctx.probe("edited")
                a = None
                continue
            expect = self.expected(values[k], added)
            before = len(w.calls)
            had = pkey is not None and store is not None and pkey in store
            try:
                if name == "len":
                    got, expect = len(a), len(expect)
                elif name == "type":
                    got, expect = S.typeform(a.type), S.typeform(awkward0.type.fromarray(self.plain(specs[k], added)))
                elif name == "ismat":
                    ismat = a.ismaterialized
                    if len(w.calls) != before:
                        raise Violation("C04:ismaterialized", "asking whether an array is loaded loaded it")
                    got = expect = None
                    ctx.log("ismaterialized", ismat)
                elif name == "slice":
                    got, expect = S.norm(a[1:]), expect[1:]
                else:
                    got = S.norm(a)
            except Violation:
                raise
            except Exception as err:
                raise Violation("C04:raises", "step {0}: {1} raised {2}".format(step, name, short(err)))
            self.compare(ctx, "step {0}: {1}".format(step, name), got, expect)
            if had and plan["cfg"]["cache"] == "dict" and name in ("read", "slice"):
                ctx.probe("served-by-key")
                if any(c == "root-%d" % k for c in w.calls[before:]):
                    raise Violation("C04:not-served", "step {0}: the entry under the persistent key was there but the data were loaded again".format(step))
            got = a = None
        for a, k, pkey, added in handles:
            self.compare(ctx, "final read", S.norm(a), self.expected(values[k], added))
        a = None
        handles = None
        gc.collect()
        if store is not None:
            left = [q for q in store if not isinstance(q, str)]
            # what a persistent entry holds may itself be lazy and keep its entry
            held = self.held(store)
            ctx.checks += 1
            if len(left) > len(held):
                raise Violation("C04:left-behind", "{0} transient entries are left after every array is gone".format(len(left) - len(held)))

    @staticmethod
    def expected(value, added):
        return value if added is None else [dict(x, w=y) for x, y in zip(value, added)]

    @staticmethod
    def plain(sp, added):
        out = S.build(S.strip(sp))
        if added is not None:
            out["w"] = numpy.array(added)
        return out

    @staticmethod
    def held(store):
        seen, todo, out = set(), [v for q, v in store.items() if isinstance(q, str)], []
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, awkward0.VirtualArray):
                out.append(x)
                if x._cache is not None and x.key in store:
                    todo.append(store[x.key])
            d = getattr(x, "__dict__", {})      # never getattr on an array: that may be a column, and load
            cs = d.get("_contents") or []
            for y in [d.get("_content")] + list(d.get("_chunks") or []) + list(cs.values() if isinstance(cs, dict) else cs):
                if y is not None:
                    todo.append(y)
        return out

    @staticmethod
    def compare(ctx, what, got, expect):
        ctx.checks += 1
        ctx.log(what, S.show(got, 200))
        if not S.same(got, expect):
            raise Violation("C04:value", "{0} gives {1}, expected {2}".format(what, S.show(got), S.show(expect)))

    def loader(self, w, sp, k):
        def load():
            w.calls.append("root-%d" % k)
            w.event("gen", "root-%d" % k)
            return S.build(sp, w)
        return load


CHECK = C04()

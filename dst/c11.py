"""C11: a save that returned reads back equal after a restart."""
import gc

import awkward0
from dst import spec as S
from dst import storage as G
from dst import store as T
from dst.core import PlanInvalid, Violation, short


class C11(G.StorageCheck):
    prop = "C11"
    quick_runs = 40000
    thorough_runs = 600000
    rule = "non-trivial: something stored was read back after a restart; distinct by event-sequence hash"
    real = ["awkward0.persist (serialize, deserialize, save, load, hdf5)", "zipfile", "h5py", "pickle", "all array classes"]
    stub = ["the disk (raw files with short reads and writes, any buffer size)", "the mapping of blobs", "caches", "sources of lazy arrays", "the clock of the archive's time stamps"]
    assumptions = ["sources of stored lazy arrays are importable functions that the whitelist allows, and still describe the same data after a restart",
                   "arrays that cannot be read before they are stored are not stored",
                   "names stored together do not overlap (C13 covers those)"]
    required_probes = ["restart", "lazy-stored", "shared", "edited", "short-write", "short-read", "composed", "declared"]

    def run(self, plan, ctx, w, back):
        pool = self.roots(plan, ctx, w)
        stored = {}
        for step, op in enumerate(plan["ops"]):
            self.step(step, op, ctx, w, back, pool, stored)
        self.restart(ctx, w, back, stored)
        del pool[:]
        gc.collect(1)
        names = back.names()
        if names is not None and sorted(names) != sorted(stored):
            raise self.v("names", "stored {0}, listed {1}".format(sorted(stored), sorted(names)))
        for name in sorted(stored):
            self.readback(ctx, w, back, stored, name)

    def restart(self, ctx, w, back, stored):
        ctx.sched("restart")
        ctx.probe("restart")
        for s in stored.values():
            s.a = None
        back.restart()
        w.restart()

    def step(self, step, op, ctx, w, back, pool, stored):
        name = op["op"]
        if name == "make":
            new = self.make(ctx, pool, op)
            if new is not None and len(pool) < 8:
                ctx.sched("make", op["how"])
                pool.append(new)
        elif name == "save":
            self.save(step, op, ctx, w, back, pool, stored)
        elif name == "load":
            n = self.names[op["name"] % len(self.names)]
            if n in stored:
                got = self.readback(ctx, w, back, stored, n)
                if op.get("keep") and len(pool) < 8 and n in stored and isinstance(stored[n].cls, type) and not stored[n].cyc:
                    pool.append(G.Item(got, stored[n].e, stored[n].v, True, stored[n].type is not None))
        elif name == "restart":
            self.restart(ctx, w, back, stored)
        elif name == "touch":
            it = pool[op["on"] % len(pool)]
            if it.resave is not None:
                got = G.norm(it.a)
                ctx.checks += 1
                if not G.same(got, it.v):
                    raise self.v("changed", "an array reads as {0} after it was stored, was {1}".format(S.show(got), S.show(it.v)))
        elif name == "evictall":
            if hasattr(w.cache, "evict_all"):
                w.cache.evict_all()
        elif name == "list":
            names = back.names()
            if names is not None and sorted(names) != sorted(stored):
                raise self.v("names", "stored {0}, listed {1}".format(sorted(stored), sorted(names)))
        else:
            raise PlanInvalid("op")

    def save(self, step, op, ctx, w, back, pool, stored):
        kind = plan_kind = back.cfg["kind"]
        items, news = [], {}
        for n, k in op["items"]:
            n = self.names[n % len(self.names)]
            it = pool[k % len(pool)]
            if it.resave is None or n in news or not it.resave and isinstance(it.a, awkward0.VirtualArray):
                continue
            if n in stored and (kind in ("zip", "obj", "h5") and not (op["mode"] == "w" and kind in ("zip", "obj"))):
                continue
            items.append((n, it.a))
            news[n] = it
        if not items or (not all(it.resave for it in news.values()) and any(stored.get(n) is not None for n in news)):
            return
        mode = op["mode"]
        if kind not in ("zip", "obj"):
            mode = "a"
        if mode == "x" and (stored or kind == "obj" or back.exists()):
            mode = "a"
        if kind == "obj" and mode == "w":
            mode = "a"          # a file object that is longer than what is written to it: not this check's business
            if any(n in stored for n in news):
                return
        if hasattr(back, "drop"):
            back.drop()
        ctx.sched("save", step, mode, ",".join(sorted(news)))
        back.save(items, mode)
        if mode == "w":
            stored.clear()
        for n, it in news.items():
            stored[n] = G.Stored(self, it)

    def readback(self, ctx, w, back, stored, name):
        s = stored[name]
        before = len(w.calls)
        got = back.load(name)
        if isinstance(s.cls, type) and issubclass(s.cls, awkward0.VirtualArray) and len(w.calls) == before and isinstance(got, awkward0.VirtualArray):
            ctx.probe("lazy-stored")
        if len(w.calls) != before:
            raise self.v("loads", "reading {0} back loaded lazy data that nothing asked for".format(name))
        self.declared(ctx, w, got, name)
        if s.shape is not None:
            self.shape(ctx, s.shape, got, name)
        self.compare(ctx, got, s, name)
        ctx.nontrivial = True
        return got

    def declared(self, ctx, w, got, name):
        """a lazy part that declared its type still does"""
        todo, seen = [got], []
        while todo:
            x = todo.pop()
            if x is None or any(x is y for y in seen) or len(seen) > 60:
                continue
            seen.append(x)
            todo.extend(G.kids(x))
            if isinstance(x, awkward0.VirtualArray):
                number = x.kwargs.get("number", x.args[0] if x.args else None)
                opts = w.cfg.get("opts") or [0]
                if isinstance(number, int) and opts[number % len(opts)] & 1:
                    before = len(w.calls)
                    x.type
                    ctx.checks += 1
                    ctx.probe("declared")
                    if len(w.calls) != before:
                        raise self.v("declaration", "{0}: the lazy part {1} declared its type, and after reading it back the type is not known without loading it".format(name, number))

    def shape(self, ctx, want, got, name):
        have = G.outline(got)
        if have != want:
            raise self.v("structure", "{0} was stored as {1}, reads as {2}".format(name, S.show(want, 300), S.show(have, 300)))
        if "#" in want:
            ctx.probe("shared")


CHECK = C11()

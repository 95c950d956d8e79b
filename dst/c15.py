"""C15: an HDF5 group of arrays behaves as a dict of arrays."""
import gc

import numpy

import awkward0
from dst import spec as S
from dst import storage as G
from dst import store as T
from dst.c11 import C11
from dst.core import PlanInvalid, SimCrash, SimFault, Violation, short

NAMES = ["one", "two", "one-1", "on", "1", "0", "schema.json", "col umn", "\u00e9t\u00e9", "x.json"]
FOREIGN = ["scalar", "text", "vector", "strings", "records", "nothing", "dtype", "group", "deep", "dangling", "two"]
KINDS = ["hset", "hset", "hgroup", "hget", "hhas", "hdel", "hlist", "hread", "gen"]
EXCS = ["io", "nospace", "mem", "interrupt", "crash", "value", "runtime", "type", "attr"]


def plant(g, name):
    import h5py
    if name == "scalar":
        g[name] = 3.5
    elif name == "text":
        g[name] = "schema.json"
    elif name == "vector":
        g[name] = numpy.arange(5)
        g[name].attrs["unit"] = "mm"
    elif name == "strings":
        g[name] = numpy.array([b"schema.json", b"x"], dtype="S11")
    elif name == "records":
        g[name] = numpy.zeros(2, dtype=[("schema.json", "i4"), ("b", "f8")])
    elif name == "nothing":
        g[name] = h5py.Empty("f8")
    elif name == "dtype":
        g[name] = numpy.dtype("i4")
    elif name in ("group", "two"):
        g.create_group(name)["0"] = numpy.arange(3, dtype="u1")
        g[name].attrs["about"] = 1
    elif name == "deep":
        g.create_group(name).create_group("one")["schema.json"] = numpy.arange(3)
    elif name == "dangling":
        g[name] = h5py.SoftLink("/nowhere/at/all")
    elif name == "external":
        g[name] = h5py.ExternalLink("no-such-file.h5", "/x")
    else:
        raise PlanInvalid("foreign")


def look(g, name):
    """what is there under a foreign name, as plain data"""
    import h5py
    link = g.get(name, getlink=True)
    if isinstance(link, h5py.SoftLink):
        return ["soft", link.path]
    if isinstance(link, h5py.ExternalLink):
        return ["external", link.filename, link.path]
    x = g[name]
    attrs = sorted((k, str(v)) for k, v in x.attrs.items())
    if isinstance(x, h5py.Group):
        return ["group", attrs, [[n, look(x, n)] for n in sorted(x)]]
    if isinstance(x, h5py.Dataset):
        return ["data", attrs, str(x.dtype), str(x[()])]
    return ["type", attrs, str(x.dtype)]


class C15(C11):
    prop = "C15"
    quick_runs = 8000
    thorough_runs = 250000
    kinds = [("h5", 1)]
    rule = "non-trivial: an array was read back; distinct by event-sequence hash"
    real = ["awkward0.persist.hdf5", "h5py and the HDF5 library (an in-memory file)"]
    stub = ["every h5py call passes a fault point", "sources of lazy arrays"]
    assumptions = ["names have no slash and are not empty", "an HDF5 file whose process died is closed properly by the library below"]
    required_probes = ["set", "refused", "deleted", "foreign", "reopened", "failed", "absent-key", "crashed", "two-handles"]

    def gencfg(self, rng, tier):
        cfg = super(C15, self).gencfg(rng, tier)
        cfg["sub"] = rng.randrange(2)
        cfg["foreign"] = rng.sample(FOREIGN, rng.randrange(0, 5))
        cfg["suffix"] = rng.pick([None, None, ".bin"])
        return cfg

    def genops(self, rng, tier):
        ops = []
        for _ in range(rng.randrange(0, 3)):
            ops.append(self.genmake(rng))
        focus = rng.sample(range(len(NAMES)), 3)
        for _ in range(rng.randrange(4, 16)):
            r = rng.random()
            n = rng.pick(focus) if rng.chance(0.85) else rng.randrange(len(NAMES) + len(FOREIGN))
            if r < 0.35:
                op = {"op": "set", "name": n, "on": rng.randrange(8), "how": rng.pick(["set", "set", "set", "update", "setdefault"])}
            elif r < 0.55:
                op = {"op": "del", "name": n, "how": rng.pick(["del", "del", "pop", "popdefault"])}
            elif r < 0.75:
                op = {"op": "get", "name": n, "how": rng.pick(["get", "get", "default", "in", "sub"])}
            elif r < 0.85:
                op = {"op": "all", "how": rng.pick(["list", "keys", "values", "items", "len", "repr"])}
            elif r < 0.92:
                op = {"op": "reopen"}
            elif r < 0.94:
                op = {"op": "clear", "how": rng.pick(["clear", "popitem"])}
            elif r < 0.97:
                op = {"op": "evictall"}
            else:
                op = self.genmake(rng)
            if op["op"] in ("set", "del", "get", "all") and rng.chance(0.25):
                op["fault"] = {"at": rng.wpick([(0, 1), (rng.randrange(0, 8), 2)]), "exc": rng.pick(EXCS), "times": rng.pick([1, 1, 1, 2, 1000])}
                op["which"] = rng.pick([None, rng.randrange(9)])
                op["after"] = rng.pick([0, 0, 1])
            op["handle"] = rng.pick([0, 0, 0, 1])
            ops.append(op)
        return ops

    # ------------------------------------------------------------------ execution
    def open(self, back, w):
        import h5py
        from dst import simh5
        file = back.file
        root = file.require_group("awkward") if back.cfg.get("sub") else file
        self.root = root
        group = simh5.wrap(root, w)
        opts = dict(back.options)
        if back.cfg.get("suffix"):
            opts["suffix"] = back.cfg["suffix"]
        if back.cfg.get("loadcache"):
            opts["cache"] = w.cache
        self.handles = [awkward0.hdf5(group, **opts), awkward0.hdf5(simh5.SimGroup(group.id), compression=None if opts.get("compression", 1) else True, **dict((k, v) for k, v in opts.items() if k != "compression"))]

    def reopen(self, ctx, w, back):
        from dst import simh5
        ctx.sched("reopen")
        ctx.probe("reopened")
        self.handles = self.root = back.h = back.group = None
        back.file.close()
        simh5.reboot()
        import h5py
        back.file = h5py.File(back.bio, "a")
        w.restart()
        self.open(back, w)

    def run(self, plan, ctx, w, back):
        pool = self.roots(plan, ctx, w)
        self.open(back, w)
        for n in plan["cfg"].get("foreign", ()):
            plant(self.root, n)
        self.root.attrs["title"] = "kept"
        foreign = dict((n, look(self.root, n)) for n in plan["cfg"].get("foreign", ()))
        stored = {}
        try:
            for step, op in enumerate(plan["ops"]):
                if op["op"] in ("make", "evictall"):
                    self.step(step, op, ctx, w, back, pool, stored)
                    continue
                if op["op"] == "reopen":
                    self.reopen(ctx, w, back)
                else:
                    self.do(step, op, ctx, w, back, pool, stored, foreign)
                self.verify(ctx, w, stored, foreign, back)
            self.reopen(ctx, w, back)
            self.verify(ctx, w, stored, foreign, back)
        finally:
            self.handles = self.root = None

    def verify(self, ctx, w, stored, foreign, back):
        h = self.handles[0]
        names = list(h)
        ctx.checks += 1
        if sorted(names) != sorted(stored) or len(h) != len(stored):
            raise self.v("names", "holds {0}, lists {1}, length {2}".format(sorted(stored), sorted(names), len(h)))
        for n in sorted(stored):
            self.compare(ctx, h[n], stored[n], n)
            ctx.nontrivial = True
        for n in foreign:
            ctx.probe("foreign")
            now = look(self.root, n) if self.root.get(n, getlink=True) is not None else None
            if now != foreign[n]:
                raise self.v("foreign", "{0} was {1}, is {2}".format(n, foreign[n], now))
        rest = sorted(set(self.root) - set(stored) - set(foreign))
        if rest:
            raise self.v("leftover", "{0} is in the group and neither stored nor foreign".format(rest))
        if self.root.attrs.get("title") != "kept":
            raise self.v("foreign", "the group's attributes changed")

    def do(self, step, op, ctx, w, back, pool, stored, foreign):
        h = self.handles[op.get("handle", 0) % 2]
        if op.get("handle"):
            ctx.probe("two-handles")
        name, how = op["op"], op.get("how")
        n = None
        if "name" in op:
            n = (NAMES + FOREIGN)[op["name"] % (len(NAMES) + len(FOREIGN))]
            if n in FOREIGN and n != "two" and n not in foreign:
                n = "two"
        new = None
        if name == "set":
            it = pool[op["on"] % len(pool)]
            if it.resave is None or not it.resave and isinstance(it.a, awkward0.VirtualArray):
                return
            new = G.Stored(self, it)
        ctx.sched("op", step, name, how or "", n or "")
        if op.get("fault"):
            kinds = [KINDS[op["which"] % len(KINDS)]] if op.get("which") is not None else sorted(set(KINDS))
            w.after = op.get("after", 0)
            w.arm(dict(op["fault"], kinds=kinds))
        err, got = None, None
        try:
            got = self.call(h, name, how, n, it.a if new is not None else None)
        except Violation:
            raise
        except Exception as e:
            err = e
        except BaseException as e:
            if not isinstance(e, SimFault):
                raise
            err = e
        fired = w.disarm()
        w.after = 0
        crash = fired is not None and isinstance(fired[2], SimCrash)
        fired = bool(fired)
        kind, text = type(err), short(err) if err is not None else None
        ctx.log(name, "raised " + kind.__name__ if err is not None else "returned")
        ctx.checks += 1
        iskey = isinstance(err, KeyError)
        err = None
        if fired:
            ctx.probe("crashed" if crash else "failed")
        if crash:
            h = None
            self.reopen(ctx, w, back)
        if text is not None:
            if not fired:
                if name == "set" and how != "setdefault" and (n in stored or n in foreign):
                    ctx.probe("refused")
                elif name == "set" and how == "setdefault" and n in foreign:
                    ctx.probe("refused")
                elif name in ("del", "get") and n not in stored and how in ("del", "pop", "get", "sub"):
                    ctx.probe("absent-key")
                    if n not in foreign and not iskey:
                        raise self.v("error", "{0} of {1}, which is not there, raised {2}".format(name, n, text))
                elif name == "clear" and how == "popitem" and not stored:
                    pass
                else:
                    raise self.v("raises", "{0} {1} of {2} raised {3}".format(name, how, n, text))
            if name == "set" and fired and n not in foreign:
                # as before, absent or done
                now = list(self.handles[0])
                if n in now:
                    if n in stored:
                        v = G.norm(self.handles[0][n])
                        if G.same(v, new.v) and not G.same(v, stored[n].v):
                            stored[n] = new
                    else:
                        stored[n] = new
                else:
                    stored.pop(n, None)
            elif name == "del" and fired and n in stored:
                if n not in list(self.handles[0]):
                    del stored[n]
            return
        # ---------------- it returned
        if name == "set":
            if n in foreign:
                raise self.v("overwrote", "setting {0} overwrote what is not an array".format(n))
            if how == "setdefault" and n in stored:
                self.compare(ctx, got, stored[n], n)
            else:
                stored[n] = new
                ctx.probe("set")
        elif name == "del":
            if n not in stored:
                if how != "popdefault":
                    raise self.v("accepted", "deleting {0}, which is not there, did not raise".format(n))
                if got != "default":
                    raise self.v("pop", "popping {0}, which is not there, gave {1}".format(n, type(got).__name__))
            else:
                if how in ("pop", "popdefault"):
                    self.compare(ctx, got, stored[n], n)
                del stored[n]
                ctx.probe("deleted")
        elif name == "get":
            if how == "in":
                if got != (n in stored):
                    raise self.v("in", "{0} in the group is {1}".format(n, got))
            elif n not in stored:
                if how != "default":
                    raise self.v("accepted", "reading {0}, which is not there, gave {1}".format(n, type(got).__name__))
                if got != "default":
                    raise self.v("default", "get of {0}, which is not there, gave {1}".format(n, type(got).__name__))
            elif how != "sub":
                self.compare(ctx, got, stored[n], n)
        elif name == "all":
            if how in ("list", "keys"):
                if sorted(got) != sorted(stored):
                    raise self.v("names", "holds {0}, lists {1}".format(sorted(stored), sorted(got)))
            elif how == "len":
                if got != len(stored):
                    raise self.v("len", "holds {0}, length {1}".format(sorted(stored), got))
            elif how == "values":
                if len(got) != len(stored):
                    raise self.v("values", "holds {0}, gave {1} values".format(sorted(stored), len(got)))
            elif how == "items":
                if sorted(k for k, _ in got) != sorted(stored):
                    raise self.v("names", "holds {0}, lists {1}".format(sorted(stored), sorted(k for k, _ in got)))
                for k, x in got:
                    self.compare(ctx, x, stored[k], k)
        elif name == "clear":
            if how == "clear":
                stored.clear()
            else:
                k, x = got
                if k not in stored:
                    raise self.v("popitem", "popitem gave {0}, which was not there".format(k))
                self.compare(ctx, x, stored[k], k)
                del stored[k]

    def call(self, h, name, how, n, a):
        if name == "set":
            if how == "update":
                return h.update({n: a})
            if how == "setdefault":
                return h.setdefault(n, a)
            h[n] = a
        elif name == "del":
            if how == "pop":
                return h.pop(n)
            if how == "popdefault":
                return h.pop(n, "default")
            del h[n]
        elif name == "get":
            if how == "default":
                return h.get(n, "default")
            if how == "in":
                return n in h
            return h[n]
        elif name == "all":
            return {"list": lambda: list(h), "keys": lambda: list(h.keys()), "values": lambda: list(h.values()), "items": lambda: list(h.items()), "len": lambda: len(h), "repr": lambda: repr(h)}[how]()
        elif name == "clear":
            return h.clear() if how == "clear" else h.popitem()
        else:
            raise PlanInvalid("op")


CHECK = C15()

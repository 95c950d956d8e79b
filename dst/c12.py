"""C12: an interrupted write never passes for a complete one."""
import gc

import awkward0
from dst import storage as G
from dst import store as T
from dst.c11 import C11
from dst.core import PlanInvalid, SimCrash, SimFault, isinjected, short

FILE = ["fwrite", "fwrite", "fwrite", "fopenw", "ftruncate", "fread", "gen"]
KINDS = {"zip": FILE, "obj": FILE[:3] + FILE[4:], "map": ["mset", "mset", "mset", "mdel", "gen"], "h5": ["hset", "hset", "hgroup", "hget", "hhas", "gen"]}
EXCS = ["io", "io", "nospace", "mem", "interrupt", "crash", "crash", "value", "runtime", "type", "key"]


class Maybe(object):
    """what a name may read as after a write that did not finish"""
    def __init__(self, options, err=True):
        self.options, self.err = options, err       # options: Stored or None (absent)


class C12(C11):
    prop = "C12"
    quick_runs = 20000
    thorough_runs = 250000
    kinds = [("map", 3), ("zip", 4), ("obj", 2), ("h5", 3)]
    names = ["one", "two", "jet"]
    rule = "non-trivial: a write was interrupted; distinct by event-sequence hash"
    assumptions = ["a process that dies leaves what it handed to the operating system; data still in its own buffers are lost; the last write may be torn",
                   "an HDF5 file that was interrupted is closed properly by the library below",
                   "an archive whose writer died may be unreadable as a whole (an error), but not wrong"]
    required_probes = ["interrupted", "crashed", "retried", "old-survives", "absent", "new-survives", "disk-full"]

    def gensave(self, rng):
        op = super(C12, self).gensave(rng)
        if rng.chance(0.6):
            kind = rng.randrange(8)
            if kind == 0:
                op["room"] = rng.randrange(0, 1500)
            else:
                op["fault"] = {"at": rng.wpick([(rng.randrange(0, 4), 1), (rng.randrange(0, 40), 2)]), "exc": rng.pick(EXCS), "times": rng.pick([1, 1, 1, 2, 3, 1000])}
                if rng.chance(0.3):
                    op["which"] = rng.randrange(9)
                op["torn"] = rng.pick([0, 0, 1, 4, 7])
                op["after"] = rng.pick([0, 0, 1])
            op["retry"] = rng.randrange(2)
        return op

    # ------------------------------------------------------------------ execution
    def run(self, plan, ctx, w, back):
        pool = self.roots(plan, ctx, w)
        stored = {}
        for step, op in enumerate(plan["ops"]):
            self.step(step, op, ctx, w, back, pool, stored)
        self.restart(ctx, w, back, stored)
        self.verify(ctx, w, back, stored)

    def restart(self, ctx, w, back, stored):
        ctx.sched("restart")
        ctx.probe("restart")
        back.restart()
        w.restart()

    def step(self, step, op, ctx, w, back, pool, stored):
        if op["op"] == "list":
            self.verify(ctx, w, back, stored)
        elif op["op"] == "load":
            n = self.names[op["name"] % len(self.names)]
            got = self.outcome(ctx, w, back, stored, n)
            if op.get("keep") and got is not None and len(pool) < 8:
                s = stored[n].options[0]
                if not s.cyc:
                    pool.append(G.Item(got, s.e, s.v, True, s.type is not None))
        else:
            super(C12, self).step(step, op, ctx, w, back, pool, stored)

    def verify(self, ctx, w, back, stored):
        for n in self.names:
            self.outcome(ctx, w, back, stored, n)
        names = None
        try:
            names = back.names()
        except SimFault:
            raise
        except Exception as err:
            if not any(m.err for m in stored.values()):
                raise self.v("names", "listing what is stored raised {0}".format(short(err)))
        if names is not None:
            for n in names:
                if n not in stored or stored[n].options == [None]:
                    raise self.v("names", "{0} is listed and was never stored completely".format(n))
            for n, m in stored.items():
                if None not in m.options and not m.err and n not in names:
                    raise self.v("names", "{0} is stored and not listed".format(n))

    def outcome(self, ctx, w, back, stored, name):
        """read a name; it must be one of the things it may be"""
        m = stored.get(name) or Maybe([None], any(x.err for x in stored.values()))
        ctx.checks += 1
        try:
            got = back.load(name)
        except G.Lost:
            if None not in m.options and not m.err:
                raise self.v("lost", "{0} was stored and is gone".format(name))
            ctx.probe("absent")
            return None
        except Exception as err:
            if not m.err:
                raise self.v("unreadable", "{0} was stored completely; reading it raised {1}".format(name, short(err)))
            ctx.log("read", name, "raised", type(err).__name__)
            ctx.probe("error")
            return None
        first = None
        for k, s in enumerate(m.options):
            if s is None:
                continue
            try:
                if s.shape is not None:
                    self.shape(ctx, s.shape, got, name)
                self.compare(ctx, got, s, name)
            except G.Violation as err:
                if not err.vclass.startswith(self.prop):
                    raise
                first = first or err
                continue
            except Exception as err:
                if not m.err:
                    raise
                ctx.probe("error")
                return None
            if len(m.options) > 1:
                ctx.probe("new-survives" if k == len(m.options) - 1 else "old-survives")
            stored[name] = Maybe([s], m.err)
            return got
        if first is not None:
            raise self.v("partial" if len(m.options) > 1 else first.vclass.split(":", 1)[1], first.detail)
        raise self.v("ghost", "{0} was never stored completely and reads as {1}".format(name, G.S.show(G.norm(got))))

    def save(self, step, op, ctx, w, back, pool, stored):
        kind = back.cfg["kind"]
        mode = op["mode"] if kind in ("zip", "obj") else "a"
        damaged = any(m.err for m in stored.values()) and kind in ("zip", "obj")
        if damaged and kind == "obj":
            return
        if damaged:
            mode = "w"          # an archive that may be unreadable is written anew
        if mode == "x" and (kind == "obj" or back.exists()):
            mode = "a"
        if kind == "obj" and mode == "w":
            mode = "a"
        items, news = [], {}
        for n, k in op["items"]:
            n = self.names[n % len(self.names)]
            it = pool[k % len(pool)]
            if it.resave is None or n in news or not it.resave and isinstance(it.a, awkward0.VirtualArray):
                continue
            if kind != "map" and mode != "w" and n in stored and stored[n].options != [None]:
                if kind != "h5" or None not in stored[n].options:
                    continue
            items.append((n, it.a))
            news[n] = G.Stored(self, it)
        if not items:
            return
        if kind == "h5":
            for n, _ in items:
                if n in stored and len(stored[n].options) > 1:
                    self.outcome(ctx, w, back, stored, n)
            names = back.names()
            items = [(n, a) for n, a in items if n not in names]
            for n in list(news):
                if n in names:
                    del news[n]
            if not items:
                return
        if hasattr(back, "drop"):
            back.drop()
        if "fault" not in op and "room" not in op:
            self.clean(ctx, w, back, stored, items, news, mode, step)
            return
        # ---------------- a write that fails
        ctx.sched("save", step, mode, ",".join(sorted(news)))
        err = None
        full = w.disk.full
        if "fault" in op:
            kinds = KINDS[kind]
            kinds = [kinds[op["which"] % len(kinds)]] if "which" in op else sorted(set(kinds))
            if op["fault"].get("exc") == "key":
                kinds = [k for k in kinds if k != "mdel"] or ["mset"]       # a KeyError says that there is nothing to delete
            w.torn = w.disk.torn = op.get("torn", 0)
            w.after = op.get("after", 0)
            w.arm(dict(op["fault"], kinds=kinds))
        elif kind == "zip":
            w.disk.capacity = w.disk.used() + op["room"]
        try:
            back.save(items, mode)
        except Exception as e:
            err = e
        except BaseException as e:
            if not isinstance(e, SimFault):
                raise
            err = e
        again = "fault" in op and max(1, op["fault"].get("times", 1)) - (w.armed[3] if w.armed else 0) > 1
        fired = w.disarm()
        w.torn = w.disk.torn = w.after = 0
        w.disk.capacity = None
        if w.disk.full > full:
            ctx.probe("disk-full")
            fired = fired or ("disk", "full", err)
        # an archive can be put right after a failed write only if that works
        damaged = kind in ("zip", "obj") and bool(fired) and again
        crash = isinstance(err, SimCrash) or fired is not None and isinstance(fired[2], SimCrash)
        ctx.log("save", "raised " + type(err).__name__ if err is not None else "returned", "after a fault" if fired else "")
        if err is not None and not fired:
            raise self.v("raises", "saving raised {0} and nothing had failed".format(short(err)))
        failed = type(err).__name__ if err is not None else None
        err = fired2 = None
        if failed is None:
            if crash:
                raise self.v("swallowed", "the process died and saving went on")
            if mode == "w":
                stored.clear()
            for n, s in news.items():
                stored[n] = Maybe([s], False)
        else:
            ctx.probe("crashed" if crash else "interrupted")
            ctx.nontrivial = True
            old = dict(stored)
            archive = kind in ("zip", "obj")
            for n, s in news.items():
                before = old[n].options if n in old else [None]
                stored[n] = Maybe([x for x in before if x is not None] + [None, s], archive and (crash or damaged or mode != "a"))
            if archive and (crash or damaged or mode == "w"):
                # the archive may be gone as a whole
                for n in old:
                    if n not in news:
                        stored[n] = Maybe([x for x in old[n].options if x is not None] + [None], True)
            if archive and not crash and not damaged and mode == "a":
                for n in news:
                    stored[n].options = [None] if n not in old else old[n].options
            fired = None
        if crash:
            self.restart(ctx, w, back, stored)
        gc.collect(1)
        self.verify(ctx, w, back, stored)
        if failed is not None and op.get("retry"):
            archive = kind in ("zip", "obj")
            if archive and (crash or damaged or mode != "a"):
                if kind == "obj":
                    return
                mode = "w"
            elif kind == "h5":
                names = back.names()
                items = [(n, a) for n, a in items if n not in names]
                news = dict((n, news[n]) for n, _ in items)
            if hasattr(back, "drop"):
                back.drop()
            self.clean(ctx, w, back, stored, items, news, mode, step)
            ctx.probe("retried")

    def clean(self, ctx, w, back, stored, items, news, mode, step):
        ctx.sched("save", step, mode, ",".join(sorted(news)))
        back.save(items, mode)
        if mode == "w":
            stored.clear()
        for n, s in news.items():
            stored[n] = Maybe([s], False)
        for n in sorted(news):
            self.outcome(ctx, w, back, stored, n)


CHECK = C12()

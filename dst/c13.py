"""C13: saving never damages what is already stored."""
import gc
import os
import pathlib
import zipfile

import awkward0
from dst import spec as S
from dst import storage as G
from dst import store as T
from dst.c11 import C11
from dst.c12 import KINDS
from dst.core import PlanInvalid, SimCrash, SimFault, isinjected, short

NAMES = ["a", "ab", "a-", "a-1", "a1", "b", "b-2", "", "-", "1", "a.json", "a/b", "\u00e9t\u00e9", "a-1.raw", "ba"]
FLAT = [n for n in NAMES if n and "/" not in n]
FOREIGN = {"README.txt": b"about", "x/notes": b"n" * 40, "zz": b""}


def overlap(a, b):
    return a.startswith(b) or b.startswith(a)


class C13(C11):
    prop = "C13"
    quick_runs = 16000
    thorough_runs = 250000
    kinds = [("map", 2), ("zip", 5), ("obj", 2), ("h5", 2)]
    names = NAMES
    rule = "non-trivial: a save met stored arrays (added next to them, was refused, failed or replaced them); distinct by event-sequence hash"
    assumptions = ["in a mapping the caller keeps the names apart (no name with its delimiter begins another)",
                   "a mapping overwrites the name it is told to write; C12 covers what remains of that name when it fails",
                   "a failing save is rolled back only if the storage works again"]
    required_probes = ["refused", "added", "failed", "replaced", "open-reader", "foreign", "disk-full", "unserializable", "conflict-in-call"]

    def gencfg(self, rng, tier):
        cfg = super(C13, self).gencfg(rng, tier)
        cfg["foreign"] = rng.pick([0, 0, 1])
        cfg["keepopen"] = 0
        if cfg["kind"] == "map":
            cfg["delimiter"] = rng.pick([None, ":", "::"])
        return cfg

    def gensave(self, rng):
        focus = rng.sample(range(len(NAMES)), 4) if rng.chance(0.7) else range(len(NAMES))
        op = {"op": "save", "items": [[rng.pick(focus), rng.randrange(8)] for _ in range(rng.wpick([(1, 4), (2, 2), (3, 1)]))],
              "mode": rng.wpick([("a", 8), ("w", 1), ("x", 1), ("r", 0.3), ("?", 0.2)]), "form": rng.randrange(4), "delim": rng.randrange(4)}
        r = rng.random()
        if r < 0.12:
            op["bad"] = rng.randrange(4)
        elif r < 0.25:
            op["fault"] = {"at": rng.wpick([(rng.randrange(0, 4), 1), (rng.randrange(0, 40), 2)]), "exc": rng.pick(["io", "nospace", "mem", "interrupt", "value", "runtime", "type", "key"]), "times": 1}
            op["torn"] = rng.pick([0, 0, 1, 4])
        elif r < 0.33:
            op["room"] = rng.randrange(0, 1500)
        return op

    def genops(self, rng, tier):
        ops = super(C13, self).genops(rng, tier)
        for _ in range(rng.randrange(0, 3)):
            ops.append(self.gensave(rng))
        out = []
        for op in ops:
            out.append(op)
            if rng.chance(0.15):
                out.append({"op": rng.pick(["open", "old"])})
        return out

    # ------------------------------------------------------------------ execution
    def run(self, plan, ctx, w, back):
        pool = self.roots(plan, ctx, w)
        stored = {}
        self.readers = []
        self.used = []
        self.fresh = 0
        kind = back.cfg["kind"]
        self.foreign = FOREIGN if plan["cfg"].get("foreign") else {}
        if self.foreign:
            if kind == "map":
                back.store.data.update(self.foreign)
            elif kind == "h5":
                for n, x in self.foreign.items():
                    back.file["foreign/" + n] = x or b"-"
            else:
                with zipfile.ZipFile(back.obj if kind == "obj" else back.real, "w", zipfile.ZIP_DEFLATED) as f:
                    for n, x in self.foreign.items():
                        f.writestr(n, x)
        try:
            for step, op in enumerate(plan["ops"]):
                if op["op"] in ("load", "list"):
                    self.verify(ctx, w, back, stored)
                elif op["op"] == "open":
                    if kind in ("zip", "obj") and stored and len(self.readers) < 2:
                        f = awkward0.persist.Load(back.source(), **dict((k, v) for k, v in back.options.items() if k == "schemasuffix"))
                        self.readers.append((f, dict(stored)))
                        ctx.sched("open")
                elif op["op"] == "old":
                    self.old(ctx, w)
                else:
                    self.step(step, op, ctx, w, back, pool, stored)
            self.old(ctx, w)
        finally:
            for f, _ in self.readers:
                f.close()
        self.restart(ctx, w, back, stored)
        self.verify(ctx, w, back, stored)

    def restart(self, ctx, w, back, stored):
        for f, _ in self.readers:
            f.close()
        self.readers = []
        super(C13, self).restart(ctx, w, back, stored)

    def old(self, ctx, w):
        """a reader opened earlier still reads what was stored then"""
        for f, stored in self.readers:
            for n in sorted(stored):
                ctx.probe("open-reader")
                self.compare(ctx, f[n], stored[n], n)

    def verify(self, ctx, w, back, stored):
        names = back.names()
        ctx.checks += 1
        if names is not None and sorted(names) != sorted(stored):
            raise self.v("names", "stored {0}, listed {1}".format(sorted(stored), sorted(names)))
        for n in sorted(stored):
            got = back.load(n)
            self.compare(ctx, got, stored[n], n)
        if self.foreign:
            have = self.others(back)
            if have != self.foreign:
                raise self.v("foreign", "what else was stored was {0}, is {1}".format(self.foreign, have))
            ctx.probe("foreign")

    def others(self, back):
        kind = back.cfg["kind"]
        if kind == "map":
            return dict((n, back.store.data.get(n)) for n in self.foreign)
        if kind == "h5":
            return dict((n, bytes(back.file["foreign/" + n][()]) if self.foreign[n] else b"") for n in self.foreign if "foreign/" + n in back.file)
        with zipfile.ZipFile(back.source(), "r") as f:
            return dict((n, f.read(n)) for n in self.foreign if n in f.namelist())

    def save(self, step, op, ctx, w, back, pool, stored):
        kind = back.cfg["kind"]
        archive = kind in ("zip", "obj")
        items, news = [], {}
        for n, k in op["items"]:
            n = NAMES[n % len(NAMES)]
            if kind == "h5" and n not in FLAT:
                continue
            it = pool[k % len(pool)]
            if it.resave is None or n in news or not it.resave and isinstance(it.a, awkward0.VirtualArray):
                continue
            if kind == "map" and any(m != n and overlap(m, n) for m in list(stored) + list(news) + list(self.used)):
                continue
            items.append((n, it.a))
            news[n] = G.Stored(self, it)
        if not items:
            return
        mode = op["mode"] if archive else "a"
        if kind == "obj" and mode in ("w", "x"):
            mode = "a"
        if self.foreign and mode == "w":
            mode = "a"
        if mode == "w":
            for f, _ in self.readers:
                f.close()
            self.readers = []
        exists = archive and back.exists() and (kind == "zip" or back.obj.getvalue() != b"")
        bad = None
        if "bad" in op:
            # something that cannot be stored comes along, after other parts
            bad = awkward0.VirtualArray(lambda: None)
            k = op["bad"] % len(items)
            items[k] = (items[k][0], awkward0.Table([("first", S.build({"k": "num", "dt": "i8", "v": list(range(5))})), ("bad", awkward0.ObjectArray([1, 2, 3, 4, 5], lambda x: x))]))
        # ---------------- what must happen
        names = [n for n, _ in items]
        refused = accepted = False
        if archive:
            inside = any(overlap(m, n) for i, m in enumerate(names) for n in names[:i])
            if inside:
                refused = True
                ctx.probe("conflict-in-call")
            elif mode == "x":
                refused = exists
                accepted = not exists
            elif mode == "w":
                accepted = True
            elif mode in ("r", "?"):
                refused = True
            else:
                known = list(stored) + list(self.foreign)
                refused = any(m.startswith(n) for m in known for n in names)
                accepted = not any(overlap(m, n) for m in known for n in names)
        elif kind == "h5":
            accepted = not any(n in stored for n in names)
        else:
            accepted = True
        before = back.bytes()
        if stored or self.foreign:
            ctx.nontrivial = True
        # ---------------- the call
        ctx.sched("save", step, mode, ",".join(sorted(news)))
        full = w.disk.full
        if "fault" in op:
            kinds = [k for k in KINDS[kind] if k != "mdel" or op["fault"]["exc"] != "key"]
            w.torn = w.disk.torn = op.get("torn", 0)
            w.arm(dict(op["fault"], kinds=sorted(set(kinds))))
        elif "room" in op and kind == "zip":
            w.disk.capacity = w.disk.used() + op["room"]
        err = None
        done = []
        try:
            self.call(back, op, items, mode, done)
        except Exception as e:
            err = e
        except BaseException as e:
            if not isinstance(e, SimFault):
                raise
            err = e
        fired = w.disarm()
        w.torn = w.disk.torn = 0
        w.disk.capacity = None
        if w.disk.full > full:
            ctx.probe("disk-full")
            fired = True
        fired = bool(fired)
        ctx.checks += 1
        ctx.log("save", "raised " + type(err).__name__ if err is not None else "returned", "after a fault" if fired else "")
        if err is None:
            if bad is not None:
                raise self.v("accepted", "an array that cannot be stored was stored")
            if refused:
                raise self.v("not-refused", "saving {0} in mode {1} was not refused next to {2}".format(names, mode, sorted(stored)))
            if mode == "w":
                stored.clear()
                ctx.probe("replaced")
            elif stored:
                ctx.probe("added")
            stored.update(news)
        else:
            text = short(err)
            err = None
            if fired or bad is not None:
                ctx.probe("failed" if fired else "unserializable")
            elif accepted:
                raise self.v("refused", "saving {0} in mode {1} next to {2} raised {3}".format(names, mode, sorted(stored), text))
            else:
                ctx.probe("refused")
            if not archive:
                # one after the other: those before the failing one are stored
                for n, _ in items[:len(done)]:
                    stored[n] = news[n]
                if kind == "map":
                    for n in names[len(done):]:
                        stored.pop(n, None)     # what remains of a name that was being overwritten is C12's business
                        self.used.append(n)
                        back.store.data.pop(back.key(n), None)
                elif len(done) == 0 and back.bytes() != before:
                    raise self.v("changed", "a save of {0} that raised {1} changed the file".format(names, text))
            elif mode == "w" and not (inside and not fired):
                stored.clear()
                self.fresh += 1
                back.target = back.disk.path("next%d.awkd" % self.fresh)
                back.real = back.target
            elif not (fired and not exists):
                gc.collect(1)
                now = back.bytes()
                if now != before:
                    raise self.v("changed", "a save of {0} in mode {1} that raised {2} changed the file ({3} bytes, were {4})".format(
                        names, mode, text, "no" if now is None else len(now), "no" if before is None else len(before)))
            elif kind == "obj":
                now = back.bytes()
                if now != before:
                    raise self.v("changed", "a save of {0} that raised {1} changed the file object".format(names, text))
        gc.collect(1)
        if not archive or back.exists() or stored:
            self.verify(ctx, w, back, stored)

    def call(self, back, op, items, mode, done):
        kind = back.cfg["kind"]
        if kind not in ("zip", "obj"):
            for n, a in items:
                back.save([(n, a)], mode)
                done.append(n)
            return
        opts = dict(back.options)
        opts["delimiter"] = [None, "-", "", "/"][op.get("delim", 0) % 4]
        if opts["delimiter"] is None:
            del opts["delimiter"]
        target = back.file()
        form = op.get("form", 0) % 4
        if kind == "zip" and form % 2:
            target = pathlib.Path(target)
        if form < 2 and len(items) == 1:
            awkward0.save(target, items[0][1], name=items[0][0], mode=mode, **opts)
        elif form == 3 and len(items) > 1:
            pre = os.path.commonprefix([n for n, _ in items])
            awkward0.save(target, dict((n[len(pre):], a) for n, a in items), name=pre, mode=mode, **opts)
        else:
            awkward0.save(target, dict(items), mode=mode, **opts)


CHECK = C13()

"""C14: reading from failing or damaged storage gives the right array or an error."""
import gc
import zipfile

import awkward0
from dst import storage as G
from dst import store as T
from dst.c11 import C11
from dst.core import PlanInvalid, SimCrash, SimFault, Violation, short

KINDS = {"zip": ["fread", "fread", "fopen", "gen", "cacheget", "cacheset"], "obj": ["fread", "fread", "gen", "cacheget", "cacheset"],
         "map": ["mget", "mget", "gen", "cacheget", "cacheset"], "h5": ["hget", "hread", "hread", "hhas", "hlist", "gen"]}
EXCS = ["io", "io", "mem", "interrupt", "value", "runtime", "type", "key", "index", "attr"]


class C14(C11):
    prop = "C14"
    quick_runs = 12000
    thorough_runs = 250000
    kinds = [("map", 3), ("zip", 4), ("obj", 2), ("h5", 2)]
    rule = "non-trivial: a read met a failure or damaged storage; distinct by event-sequence hash"
    assumptions = ["a flipped byte is noticed only where there is a checksum (archives); in mappings and HDF5 only missing and shortened parts are",
                   "damage is undone before the next damage"]
    required_probes = ["read-failed", "read-after-failure", "flipped", "cut", "part-dropped", "part-cut", "other-intact", "noticed", "short-object"]

    def genops(self, rng, tier):
        ops = []
        for _ in range(rng.randrange(0, 3)):
            ops.append(self.genmake(rng))
        for _ in range(rng.randrange(1, 4)):
            ops.append(self.gensave(rng))
        for _ in range(rng.randrange(2, 7)):
            r = rng.random()
            if r < 0.45:
                ops.append({"op": "load", "name": rng.randrange(4), "again": rng.randrange(3), "which": rng.pick([None, rng.randrange(9)]),
                            "fault": {"at": rng.wpick([(0, 1), (rng.randrange(0, 12), 2)]), "exc": rng.pick(EXCS), "times": rng.pick([1, 1, 1, 2, 5])}})
            elif r < 0.85:
                ops.append({"op": "damage", "how": rng.pick(["flip", "flip", "cut", "partdrop", "partcut", "partgrow", "partflip"]), "name": rng.randrange(4),
                            "part": rng.randrange(9), "where": rng.randrange(10000), "bit": rng.randrange(8), "n": rng.randrange(1, 4)})
            elif r < 0.9:
                ops.append({"op": "restart"})
            elif r < 0.93:
                ops.append({"op": "shortobj", "bits": [rng.randrange(2) for _ in range(6)], "name": rng.randrange(4)})
            else:
                ops.append(self.gensave(rng))
        return ops

    def step(self, step, op, ctx, w, back, pool, stored):
        name = op["op"]
        if name == "load" and "fault" in op:
            names = sorted(stored)
            if names:
                self.faulty(op, ctx, w, back, stored, names[op["name"] % len(names)])
        elif name == "damage":
            names = sorted(stored)
            if names:
                self.damage(op, ctx, w, back, stored, names[op["name"] % len(names)])
        elif name == "shortobj":
            names = sorted(stored)
            if names and back.cfg["kind"] == "obj":
                plan = T.ShortPlan(op["bits"])
                back.obj.shortread = plan
                ctx.probe("short-object")
                self.rightorraises(ctx, w, back, stored, names[op["name"] % len(names)], "a file object that reads short")
                back.obj.shortread = None
                back.drop()
        else:
            super(C14, self).step(step, op, ctx, w, back, pool, stored)

    def attempt(self, ctx, w, back, stored, name):
        """read it through to the values; None or the failure"""
        try:
            got = back.load(name)
            value = G.norm(got)
        except Violation:
            raise
        except G.Lost:
            return "absent", None
        except Exception as err:
            return short(err), None
        except BaseException as err:
            if not isinstance(err, SimFault):
                raise
            return short(err), None
        return None, (got, value)

    def rightorraises(self, ctx, w, back, stored, name, what, absent=True):
        failed, got = self.attempt(ctx, w, back, stored, name)
        self.fired = w.disarm() is not None
        ctx.checks += 1
        if failed is not None:
            ctx.probe("noticed")
            ctx.log("read", name, "failed:", failed if "0x" not in failed else "")
            return False
        s = stored[name]
        if not G.same(got[1], s.v):
            raise self.v("wrong", "{0}: {1} was stored as {2}, reads as {3}".format(what, name, G.S.show(s.v), G.S.show(got[1])))
        self.compare(ctx, got[0], s, name)
        return True

    def faulty(self, op, ctx, w, back, stored, name):
        kind = back.cfg["kind"]
        if kind not in KINDS:
            return
        kinds = KINDS[kind]
        kinds = [kinds[op["which"] % len(kinds)]] if op.get("which") is not None else sorted(set(kinds))
        for attempt in range(1 + op.get("again", 0)):
            w.arm(dict(op["fault"], kinds=kinds))
            ok = self.rightorraises(ctx, w, back, stored, name, "a read failed")
            fired = self.fired
            if not fired and not ok:
                raise self.v("raises", "reading {0} failed and nothing had".format(name))
            if fired:
                ctx.nontrivial = True
                ctx.probe("read-failed")
            gc.collect(1)
        for n in sorted(stored):
            self.readback(ctx, w, back, stored, n)
            ctx.probe("read-after-failure")

    def damage(self, op, ctx, w, back, stored, name):
        kind = back.cfg["kind"]
        how = op["how"]
        ctx.sched("damage", how, name)
        if kind in ("zip", "obj"):
            self.damagefile(op, ctx, w, back, stored, name)
        elif kind in ("map", "h5"):
            self.damageparts(op, ctx, w, back, stored, name)

    # ------------------------------------------------------------------ archives
    def damagefile(self, op, ctx, w, back, stored, name):
        before = back.bytes()
        if not before:
            return
        how = op["how"]
        data = bytearray(before)
        intact = []
        suffix = back.options.get("schemasuffix", ".json")
        delim = back.options.get("delimiter", "-")
        if how in ("flip", "cut"):
            if how == "cut":
                data = data[:op["where"] * len(data) // 10000]
                ctx.probe("cut")
            else:
                for k in range(op["n"]):
                    data[(op["where"] * len(data) // 10000 + k * k * 7) % len(data)] ^= 1 << (op["bit"] + k) % 8
                ctx.probe("flipped")
        else:
            import io
            with zipfile.ZipFile(io.BytesIO(before)) as f:
                infos = f.infolist()
                mine = [i for i in infos if i.filename == name + suffix or i.filename.startswith(name + delim) or name == ""]
                info = mine[op["part"] % len(mine)]
                if how in ("partdrop", "partcut", "partgrow"):
                    out = io.BytesIO()
                    with zipfile.ZipFile(out, "w") as g:
                        for i in infos:
                            x = f.read(i.filename)
                            if i is info:
                                if how == "partdrop":
                                    ctx.probe("part-dropped")
                                    continue
                                if how == "partcut":
                                    x = x[:op["where"] * len(x) // 10000]
                                    ctx.probe("part-cut")
                                else:
                                    x = x + b"\0" * op["n"]
                            g.writestr(zipfile.ZipInfo(i.filename), x)
                    data = bytearray(out.getvalue())
                else:
                    start = info.header_offset
                    end = start + 30 + len(info.filename.encode("utf-8")) + info.compress_size
                    if info.compress_size == 0:
                        return
                    data[end - 1 - op["where"] % info.compress_size] ^= 1 << op["bit"]
                    ctx.probe("flipped")
                intact = [n for n in sorted(stored) if n != name and name != ""]
        ctx.nontrivial = True
        ctx.fault("damage:" + how)
        if how in ("flip", "cut") or len(data) != len(before):
            back.drop()         # whoever has the file open has its directory in memory: what changes size is another file
        self.put(back, bytes(data))
        try:
            for n in sorted(stored):
                ok = self.rightorraises(ctx, w, back, stored, n, "damaged ({0})".format(how))
                if n in intact:
                    ctx.probe("other-intact")
                    if not ok:
                        raise self.v("other", "{0} cannot be read when {1} is damaged ({2})".format(n, name, how))
                elif how == "partdrop" and ok and n == name:
                    self.needless(n, info)
        finally:
            back.drop()
            gc.collect(1)
            self.put(back, before)
        for n in sorted(stored):
            self.readback(ctx, w, back, stored, n)

    def needless(self, name, info):
        raise self.v("needless", "{0} reads although its part {1} is gone".format(name, info.filename))

    def put(self, back, data):
        if back.cfg["kind"] == "obj":
            back.obj.seek(0)
            super(T.SimFileObj, back.obj).truncate(0)
            super(T.SimFileObj, back.obj).write(data)
        else:
            with back.disk.saved["open"](back.real, "r+b") as f:
                f.write(data)
                f.truncate()

    # ------------------------------------------------------------------ mappings and HDF5
    def damageparts(self, op, ctx, w, back, stored, name):
        how = {"flip": "partflip", "cut": "partcut"}.get(op["how"], op["how"])
        if back.cfg["kind"] == "map":
            store = back.store.data
            delim = back.options.get("delimiter", "-")
            keys = sorted(k for k in store if k == back.key(name) or k.startswith(name + (delim or "")) and k not in [back.key(n) for n in stored])
            key = keys[op["part"] % len(keys)]
            old = store[key]
            used = key == back.key(name) or '"read": "%s"' % key[len(name + (delim or "")):] in store[back.key(name)].decode("ascii")

            def put(x):
                if x is None:
                    del store[key]
                else:
                    store[key] = x
        else:
            g = back.file[name]
            keys = sorted(g)
            key = keys[op["part"] % len(keys)]
            used = True
            old = g[key][()].tobytes()

            def put(x):
                import numpy
                if key in g:
                    del g[key]
                if x is not None:
                    g[key] = numpy.frombuffer(x, dtype=numpy.uint8)
        if how == "partdrop":
            new = None
            ctx.probe("part-dropped")
        elif how == "partcut":
            new = old[:op["where"] * len(old) // 10000]
            if new == old:
                return
            ctx.probe("part-cut")
        elif how == "partgrow":
            new = old + b"\0" * op["n"]
        else:
            if not old:
                return
            new = bytearray(old)
            new[op["where"] * len(old) // 10000] ^= 1 << op["bit"]
            new = bytes(new)
            ctx.probe("flipped")
        ctx.nontrivial = True
        ctx.fault("damage:" + how)
        put(new)
        try:
            for n in sorted(stored):
                if n == name:
                    if how == "partflip":
                        continue        # no checksum: nothing is said about this one
                    ok = self.rightorraises(ctx, w, back, stored, n, "damaged ({0})".format(how))
                    if ok and used and how in ("partdrop", "partcut"):
                        raise self.v("needless", "{0} reads although its part {1} is {2}".format(name, key, how))
                else:
                    ctx.probe("other-intact")
                    self.readback(ctx, w, back, stored, n)
        finally:
            put(old)
        for n in sorted(stored):
            self.readback(ctx, w, back, stored, n)


CHECK = C14()

"""C17: Parquet files read back what was written, lazily, whatever fails meanwhile.

The Parquet library is real; the bytes go to and come from simulated file
objects (every write, read and the source of every part is a fault point), or a
scratch file whose open descriptors are counted.
"""
import gc
import io
import os
import shutil
import tempfile

import numpy

import awkward0
from dst import spec as S
from dst import store as T
from dst.core import Check, FAULTS, PlanInvalid, SimFault, Violation, isinjected, short
from dst.lazy import OPS, gen_op

READ = ["all", "tolist", "len", "index", "index", "iterpart", "rowcol", "colrow", "colrow"]
DERIVE = ["slice", "slice", "fancy", "mask", "col", "col", "col"]
EXCS = ["io", "mem", "value", "key", "runtime", "interrupt", "type", "index", "attr", "nospace"]


class File(io.BytesIO):
    """a file object in the simulated world"""
    world = None
    log = None

    def write(self, b):
        self.world.event("fwrite", len(b))
        return super(File, self).write(b)

    def read(self, n=-1):
        at = self.tell()
        self.world.event("fread", at)
        out = super(File, self).read(n)
        if self.log is not None:
            self.log.append((at, len(out)))
        return out


def pushdown(spec, missing=None):
    """the value of an array as Arrow has it: missing rows of a table are rows of missing values"""
    k = spec["k"]
    n = S.length(spec)
    if missing is None:
        missing = [False] * n
    if k == "vir":
        return pushdown(spec["c"], missing)
    if k == "tab":
        cols = [(name, pushdown(c, missing)) for name, c in spec["cols"]]
        return [dict((name, c[i]) for name, c in cols) for i in range(n)]
    if k in ("msk", "bmsk"):
        m = [x or y for x, y in zip(spec["m"], missing)]
        return pushdown(spec["c"], m)
    if k == "imsk":
        c = spec["c"]
        m = [x or y for x, y in zip(spec["m"], missing)]
        pos = -1
        spread = []
        for x in spec["m"]:
            if not x:
                pos += 1
            spread.append(None if x else pos)
        return pushdown(pick(c, [0 if x is None else x for x in spread]), m)
    if k == "idx":
        out = S.pyvalue(spec)
        return [None if m else x for m, x in zip(missing, out)]
    if k == "jag":
        c = pushdown(spec["c"])
        out, pos = [], 0
        for m in spec["counts"]:
            out.append(c[pos:pos + m])
            pos += m
        return [None if m else x for m, x in zip(missing, out)]
    return [None if m else x for m, x in zip(missing, S.pyvalue(spec))]


def pick(spec, where):
    """the array of the given items of another one"""
    k = spec["k"]
    if k == "vir":
        return pick(spec["c"], where)
    if k in ("num", "str", "byt"):
        return dict(spec, v=[spec["v"][i] for i in where])
    if k == "tab":
        return dict(spec, cols=[[n, pick(c, where)] for n, c in spec["cols"]])
    if k == "jag":
        starts = [sum(spec["counts"][:i]) for i in range(len(spec["counts"]))]
        return dict(spec, counts=[spec["counts"][i] for i in where], c=pick(spec["c"], [j for i in where for j in range(starts[i], starts[i] + spec["counts"][i])]))
    if k == "idx":
        return dict(spec, index=[spec["index"][i] for i in where])
    if k in ("msk", "bmsk"):
        return dict(spec, m=[spec["m"][i] for i in where], c=pick(spec["c"], where))
    raise PlanInvalid("pick")


def writable(spec, dictionary=False):
    """what the library below can write"""
    k = spec["k"]
    if k == "idx":
        return not dictionary and spec["c"]["k"] in ("num", "str")
    if k == "imsk" and (S.length(spec["c"]) == 0 or not spec["m"] or strip1(spec["c"])["k"] not in ("num", "str", "byt", "jag", "tab")):
        return False
    if k in ("msk", "bmsk") and strip1(spec["c"])["k"] in ("idx",):
        return False
    return all(writable(c) for _, c in S.children(spec))


def strip1(spec):
    while spec["k"] == "vir":
        spec = spec["c"]
    return spec


class C17(Check):
    prop = "C17"
    quick_runs = 20000
    thorough_runs = 250000
    rule = "non-trivial: a source, a loader, a write or a read failed, or a loaded column was dropped; distinct by event-sequence hash"
    real = ["awkward0.arrow", "awkward0 arrays", "pyarrow (one thread)", "file system (scratch directory)"]
    stub = ["file objects", "the sources of streams and of lazy parts", "cache (SimCache)"]
    assumptions = ["missing rows of a table read back as rows of missing values (Arrow tables have no missing rows)",
                   "what pyarrow cannot write is refused (nested dictionaries, dictionaries with missing items)",
                   "the library below writes and reads Parquet as it should"]
    required_probes = ["failed-source", "failed-loader", "failed-write", "failed-read", "prefix", "column-only", "second-file", "stored"]

    def worker_init(self):
        import h5py  # noqa: F401
        import pyarrow
        import pyarrow.parquet  # noqa: F401
        pyarrow.set_cpu_count(1)
        pyarrow.set_io_thread_count(1)

    # ------------------------------------------------------------------ generation
    def gencol(self, rng, n, depth, ser, virtual):
        for _ in range(50):
            k = rng.wpick([("gen", 8), ("byt", 1), ("idx", 1)])
            if k == "byt":
                return {"k": "byt", "v": ["b%d" % ser.next() for _ in range(n)]}
            if k == "idx":
                cn = n + rng.randrange(3)
                return {"k": "idx", "index": [rng.randrange(cn) for _ in range(n)], "c": S.gen(rng, cn, 0, ser, ("num", "str"))}
            sp = S.gen(rng, n, depth, ser, ("num", "jag", "tab", "msk", "bmsk", "imsk", "str"), virtual)
            if writable(sp):
                return sp
        return S.gen_leaf(rng, n, ser)

    def genparts(self, rng, ser, virtual):
        n = rng.wpick([(0, 1), (1, 2), (2, 2), (4, 3), (9, 2), (17, 1)])
        if rng.chance(0.75):
            names = rng.pick([["x", "y", "z"], ["y", "x"], ["x"], ["x", "a b", "\u00e9", "y"]])
            first = {"k": "tab", "cols": [[m, self.gencol(rng, n, rng.randrange(3), ser, virtual)] for m in names]}
            if rng.chance(0.15) and n:
                first = {"k": rng.pick(["msk", "bmsk"]), "m": [rng.chance(0.3) for _ in range(n)], "when": rng.chance(0.5), "ls": rng.chance(0.5), "c": first}
        else:
            first = self.gencol(rng, n, rng.randrange(3), ser, virtual)
            while first["k"] == "tab" or "idx" in S.kinds(first):
                first = self.gencol(rng, n, rng.randrange(2), ser, virtual)
        parts = [first]
        for _ in range(rng.wpick([(0, 3), (1, 2), (2, 2), (4, 1)])):
            for _ in range(10):
                m = rng.pick([0, 1, 2, 3, 5])
                p = S.refill(first, m, rng, ser)
                if writable(p):
                    parts.append(p)
                    break
        return parts

    def gen(self, rng, tier):
        ser = S.Serial()
        files = []
        for _ in range(rng.pick([1, 1, 2])):
            parts = self.genparts(rng, ser, rng.pick([0, 0, 0.3]))
            f = {"parts": parts, "how": rng.pick(["array", "chunked", "list", "gen", "iter", "growing"]), "to": rng.pick(["object", "object", "path"]),
                 "compression": rng.pick(["snappy", "none", "gzip"]), "dict": rng.randrange(2), "pv": rng.randrange(2), "attempts": []}
            for _ in range(rng.pick([0, 0, 1, 1, 2])):
                kind = rng.pick(["source", "source", "source", "gen", "fwrite", "fwrite", "bad", "schema"])
                f["attempts"].append({"kind": kind, "at": rng.pick([0, 1, 1, 2, 3]) if kind != "fwrite" else rng.pick([0, 1, 2, 5, 10, rng.randrange(60)]), "exc": rng.pick(EXCS), "v": rng.randrange(5)})
            if rng.chance(0.4):
                if rng.chance(0.5):
                    f["cut"] = ["s", rng.pick([None, 0, 1, 2, -2]), rng.pick([None, 1, 3, -1]), rng.pick([None, None, 2, -1, -2])]
                else:
                    f["cut"] = ["i", [rng.randrange(9) for _ in range(rng.randrange(1, 5))]]
            files.append(f)
        ops = []
        for _ in range(rng.randrange(2, 12)):
            r = rng.random()
            if r < 0.06:
                op = {"op": "evictall"}
            elif r < 0.12:
                op = {"op": "reopen"}
            elif r < 0.2:
                op = {"op": "store", "on": rng.randrange(2), "wl": rng.randrange(2)}
            elif r < 0.35:
                op = {"op": "columnonly", "on": rng.randrange(2), "i": rng.randrange(6), "c": rng.randrange(4)}
            else:
                op = gen_op(rng, READ if rng.chance(0.6) else DERIVE)
            if rng.chance(0.4) and op["op"] not in ("evictall",):
                op["fault"] = {"exc": rng.pick(EXCS), "at": rng.pick([0, 0, 1, 2, 4]), "kinds": rng.pick([["fread"], ["fread"], ["fread", "cacheget", "cacheset"], ["cacheset"], ["cacheget"]]), "times": rng.pick([1, 1, 2, 99])}
            ops.append(op)
        cfg = {"cache": rng.wpick([("none", 2), ("sim", 4), ("lru", 2), ("dict", 1), ("drop", 1), ("bare", 1)]), "capacity": rng.randrange(1, 4),
               "evict": [rng.pick([1, 2, 3]) if rng.chance(0.25) else 0 for _ in range(rng.randrange(0, 30))], "opts": [rng.pick([0, 1, 8])]}
        return {"cfg": cfg, "files": files, "ops": ops, "ids": rng.pick(["now", "later", "never"])}

    # ------------------------------------------------------------------ execution
    def execute(self, plan, ctx):
        w = T.World(ctx, plan["cfg"])
        self.dir = tempfile.mkdtemp(prefix="dst17", dir=T.Disk.base)
        try:
            files = [self.write(ctx, w, i, f) for i, f in enumerate(plan["files"])]
            files = [x for x in files if x is not None]
            if not files:
                return
            if len(files) > 1:
                ctx.probe("second-file")
            self.read(plan, ctx, w, files)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    # -- writing
    def source(self, ctx, w, f, fault, done):
        parts = f["parts"]
        src = fault if fault and fault["kind"] in ("source", "bad") else None

        def step(i):
            if src is not None and src["at"] == i:
                if src["kind"] == "bad":
                    ctx.fault("source:not-an-array")
                    return ["not an array", None, awkward0.IndexedArray([0], awkward0.Table(x=[1], q=[2])), [1, 2], awkward0.IndexedArray([0], awkward0.Table(x=[1], q=[2]))][(fault["v"] + i) % 5]
                ctx.fault("source:" + src["exc"])
                ctx.sched("FAULT source", i, src["exc"])
                err = FAULTS[src["exc"]]("injected")
                w.fired = ("source", i, err)
                raise err
            if i >= len(parts):
                raise StopIteration
            out = self.cut(f, S.build(parts[i], w))
            done.append(i)
            return out

        if f["how"] == "gen":
            def g():
                i = 0
                while True:
                    try:
                        x = step(i)
                    except StopIteration:
                        return
                    yield x
                    i += 1
            return g()

        class It(object):
            i = 0

            def __iter__(self):
                return self

            def __next__(self):
                self.i += 1
                return step(self.i - 1)
        if f["how"] == "iter":
            return It()
        built = [self.cut(f, S.build(p, w)) for p in parts]
        if f["how"] == "list":
            return built
        if f["how"] == "chunked":
            return awkward0.ChunkedArray(built)
        if f["how"] == "growing" and all(p["k"] == "num" for p in parts):
            dt = S.dtype(parts[0]["dt"])
            out = awkward0.AppendableArray((3,), dt)
            for p in parts:
                out.extend(p["v"])
            return out
        return built[0]

    def content(self, f):
        """(rows, parts as they are written)"""
        parts = f["parts"]
        if f["how"] == "array" or f["how"] == "growing" and not all(p["k"] == "num" for p in parts):
            parts = parts[:1]
        if f["how"] == "growing" and all(p["k"] == "num" for p in parts):
            rows = [x for p in parts for x in p["v"]]
            return rows, [rows[i:i + 3] for i in range(0, len(rows), 3)]
        values = [S.norm(self.cut(f, pushdown(p))) for p in parts]
        return [x for v in values for x in v], values

    def cut(self, f, x):
        """the part of an array that is written"""
        c = f.get("cut")
        if not c:
            return x
        if c[0] == "s":
            return x[slice(c[1], c[2], c[3])]
        where = [i % len(x) for i in c[1]] if len(x) else []
        if isinstance(x, list):
            return [x[i] for i in where]
        return x[numpy.array(where, dtype="i8")] if where else x[0:0]

    def options(self, f, fault):
        out = {"compression": f["compression"], "use_dictionary": bool(f["dict"])}
        if fault and fault["kind"] == "schema":
            import pyarrow
            out["schema"] = pyarrow.schema([("another", pyarrow.int16())])
        return out

    def fds(self):
        n = 0
        for x in os.listdir("/proc/self/fd"):
            try:
                n += os.readlink("/proc/self/fd/" + x).startswith(self.dir + "/")
            except OSError:
                pass
        return n

    def target(self, w, f, i):
        if f["to"] == "path":
            return os.path.join(self.dir, "f%s.parquet" % i)
        out = File()
        out.world = w
        return out

    def write(self, ctx, w, number, f):
        rows, values = self.content(f)
        for a, fault in enumerate(f["attempts"] + [None]):
            where = self.target(w, f, "%d-%d" % (number, a))
            ctx.sched("write", number, f["how"], f["to"], len(f["parts"]), fault["kind"] if fault else "-")
            done = []
            err = None
            try:
                source = self.source(ctx, w, f, fault, done)
            except SimFault:
                raise
            before = gc.isenabled()
            w.fired = None
            if fault and fault["kind"] in ("gen", "fwrite"):
                w.arm({"kinds": [fault["kind"]], "at": fault["at"], "exc": fault["exc"]})
            try:
                awkward0.toparquet(where, source, **self.options(f, fault))
            except Exception as e:
                err = e
            except SimFault as e:
                err = e
            fired = w.disarm()
            bad = fault is not None and fault["kind"] == "bad" and f["how"] in ("gen", "iter") and fault["at"] <= len(f["parts"]) and len(done) == fault["at"]
            if fault is not None and fault["kind"] == "schema" and (f["how"] in ("gen", "iter", "list", "chunked") or f["how"] == "growing" and all(p["k"] == "num" for p in f["parts"])):
                bad = True
            ctx.log("write", number, "fired" if fired or bad else "-", "raised " + type(err).__name__ if err is not None else "written")
            ctx.checks += 1
            if err is None and (fired or bad) and not (fired and isinstance(fired[2], StopIteration)):
                raise Violation("C17:failure-swallowed", "{0} failed while a Parquet file was written, and toparquet returned".format(fired or "the source"))
            if err is None:
                if fault is None:
                    return {"f": f, "where": where, "rows": rows, "values": values}
                self.verify(ctx, w, f, where, rows, values, "a Parquet file")
                continue
            if not fired and not bad:
                if not values:
                    continue            # nothing to write
                if isinstance(err, ValueError) and any("imsk" in S.kinds(p) for p in f["parts"]) and "schema" in str(err):
                    raise PlanInvalid("items that are all missing have no type")
                raise Violation("C17:write-raises", "writing {0} raises {1}".format(S.show(rows), short(err)))
            if fired and not isinjected(err) and not isinstance(fired[2], AttributeError):
                raise Violation("C17:other-failure", "{0} failed while a Parquet file was written; toparquet raised {1}".format(fired[:2], short(err)))
            # released, while the caller still looks at what was raised
            ctx.probe("failed-" + {"fwrite": "write", "gen": "loader"}.get(fired[0] if fired else "source", "source"))
            if f["to"] == "path":
                if self.fds() and not (bad and fault["kind"] == "bad" and not done):
                    raise Violation("C17:left-open", "toparquet raised {0} and left the file open".format(short(err)))
                written = os.path.getsize(where) if os.path.exists(where) else None
            else:
                written = len(where.getvalue())
            err = source = None
            fired = fired and fired[:2]
            w.fired = None
            gc.collect()
            if f["to"] == "path":
                later = os.path.getsize(where) if os.path.exists(where) else None
            else:
                later = len(where.getvalue())
            if later != written and fault["kind"] != "fwrite" and not (bad and fault["kind"] == "bad" and not done):      # when writing fails, closing does too
                raise Violation("C17:writes-later", "toparquet raised, and wrote to the file afterwards")
            if fault["kind"] in ("source", "bad") or fault["kind"] == "gen" and f["how"] in ("gen", "iter") and not f.get("cut"):
                k = len(done) if fault["kind"] != "gen" else len(done) - 1
                if k > 0:
                    ctx.probe("prefix")
                    self.verify(ctx, w, f, where, [x for v in values[:k] for x in v], values[:k], "what was written before the source failed")

    def verify(self, ctx, w, f, where, rows, values, what):
        ctx.checks += 1
        try:
            got = self.plain(awkward0.fromparquet(self.again(where, w)))
        except Exception as err:
            raise Violation("C17:unreadable", "{0} ({1} parts): reading raises {2}".format(what, len(values), short(err)))
        if not S.same(got, S.norm(rows)):
            raise Violation("C17:content", "{0} is {1}, reads as {2}".format(what, S.show(rows), S.show(got)))

    def again(self, where, w):
        if isinstance(where, str):
            return where
        out = File(where.getvalue())
        out.world = w
        out.log = []
        return out

    def plain(self, x):
        return S.norm(x)

    # -- reading
    def open(self, plan, w, x):
        source = self.again(x["where"], w)
        return awkward0.fromparquet(source, cache=w.cache, persistvirtual=bool(x["f"]["pv"])), source

    def read(self, plan, ctx, w, files):
        pool = []
        for x in files:
            a, source = self.open(plan, w, x)
            pool.append([a, S.norm(x["rows"]), x, source])
        nroots = len(pool)
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            ctx.sched("op", step, name)
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                continue
            a, v, x, source = pool[op.get("on", 0) % (len(pool) if name in OPS else nroots)]
            n = len(v)
            if name == "reopen":
                fcn, want, keep = (lambda: self.open(plan, w, x)), None, "open"
            elif name == "store":
                fcn, want, keep = (lambda: self.stored(ctx, w, a, x)), v, None
            elif name == "columnonly":
                got = self.columnonly(ctx, w, a, x, source, op)
                if got is None:
                    continue
                fcn, want = got
                keep = None
            else:
                if name not in OPS or OPS[name][1] is None:
                    raise PlanInvalid("op")
                if name == "col" or name in ("rowcol", "colrow"):
                    cols = v[0] if v and isinstance(v[0], dict) else {}
                    if op["c"] not in cols or any(not isinstance(r, dict) or op["c"] not in r for r in v):
                        continue
                try:
                    want = S.norm(OPS[name][1](v, op, n))
                except IndexError:
                    continue
                fcn = lambda: OPS[name][0](a, op, n)
                keep = "pool" if name in DERIVE and len(pool) < 6 else None
                if name in ("fancy", "mask") and not v:
                    continue
            if op.get("fault"):
                w.arm(op["fault"])
                err = None
                try:
                    got = fcn()
                    if keep != "open":
                        got = self.plain(got)
                except Exception as e:
                    err = e
                except SimFault as e:
                    err = e
                fired = w.disarm()
                ctx.log(step, name, "fired" if fired else "-", "raised " + type(err).__name__ if err is not None else "returned")
                ctx.checks += 1
                if err is not None:
                    if not fired:
                        raise Violation("C17:read-raises", "{0} raises {1} although nothing failed".format(self.shown(op), short(err)))
                    if not isinjected(err) and not isinstance(fired[2], AttributeError):      # an AttributeError has a meaning of its own
                        raise Violation("C17:other-failure", "{0} failed while reading; {1} raised {2}".format(fired[:2], self.shown(op), short(err)))
                    ctx.probe("failed-read")
                elif keep != "open" and want is not None and not S.same(got, want):
                    raise Violation("C17:wrong", "{0} while {1} failed: expected {2}, got {3}".format(self.shown(op), fired and fired[:2], S.show(want), S.show(got)))
                err = fired = None
            try:
                res = fcn()
                got = None if keep == "open" else self.plain(res)
            except Violation:
                raise
            except Exception as e:
                raise Violation("C17:read-raises", "{0}{1} raises {2}".format(self.shown(op), " after a failure" if op.get("fault") else "", short(e)))
            ctx.checks += 1
            if keep == "open":
                for item in pool:
                    if item[2] is x and item[3] is source and item[0] is a:
                        item[0], item[3] = res
                continue
            ctx.log(step, name, "=", S.show(got, 100))
            if want is not None and not S.same(got, want):
                raise Violation("C17:wrong", "{0}{1}: expected {2}, got {3}".format(self.shown(op), " after a failure" if op.get("fault") else "", S.show(want), S.show(got)))
            if keep == "pool" and isinstance(res, awkward0.AwkwardArray) and isinstance(want, list):
                pool.append([res, want, x, source])
        for a, v, x, source in pool:
            ctx.checks += 1
            got = self.plain(a)
            if not S.same(got, v):
                raise Violation("C17:wrong", "in the end: expected {0}, got {1}".format(S.show(v), S.show(got)))

    def shown(self, op):
        return "{0}({1})".format(op["op"], ", ".join("{0}={1}".format(k, op[k]) for k in sorted(op) if k not in ("op", "fault")))

    def stored(self, ctx, w, a, x):
        """through storage and back: the columns, or where they are read from"""
        if not isinstance(x["where"], str):
            return a
        ctx.probe("stored")
        import awkward0.persist
        storage = {}
        awkward0.persist.serialize(a, storage, "it")
        return awkward0.persist.deserialize(storage, "it", whitelist=[["*"]], cache=w.cache)

    def columnonly(self, ctx, w, a, x, source, op):
        """using a column reads this column"""
        import pyarrow.parquet
        if isinstance(x["where"], str) or not x["rows"] or not isinstance(x["rows"][0], dict):
            return None
        names = sorted(x["rows"][0])
        name = names[op["c"] % len(names)]
        i = op["i"] % len(x["rows"])
        ctx.probe("column-only")
        meta = pyarrow.parquet.ParquetFile(io.BytesIO(x["where"].getvalue())).metadata
        if meta.schema.to_arrow_schema().names == [""]:
            return None         # records in a single column
        mine, other = [], []
        for g in range(meta.num_row_groups):
            if meta.row_group(g).num_rows == 0:
                continue
            for c in range(meta.num_columns):
                col = meta.row_group(g).column(c)
                first = col.data_page_offset
                if col.has_dictionary_page and col.dictionary_page_offset:
                    first = min(first, col.dictionary_page_offset)
                top = meta.schema.column(c).path.split(".")[0]
                (mine if top == name else other).append((first, first + col.total_compressed_size))

        def fcn():
            at = len(source.log)
            out = a[name][i]
            for pos, n in source.log[at:]:
                if any(pos < hi and pos + n > lo for lo, hi in other):
                    raise Violation("C17:reads-others", "item {0} of column {1} was asked for, and other columns were read".format(i, name))
            return out
        return fcn, x["rows"][i][name]


CHECK = C17()

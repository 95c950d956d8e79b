"""Engine of the storage checks (C11 saves read back, C12 interrupted writes,
C13 saving next to what is stored, C14 failing and damaged reads).

A run is one history on one storage (archive file, file-like object, mapping of
blobs, HDF5 file, pickles): arrays are made (lazy ones, derived ones, several
sharing parts), saved, read back; the process restarts; faults hit the calls.
The model is: name -> value, kept as plain Python data.
"""
import gc
import io
import lzma
import pickle
import zlib

import numpy

import awkward0
import awkward0.persist
from dst import spec as S
from dst import store as T
from dst.core import Check, PlanInvalid, SimCrash, SimFault, Violation, isinjected, short
from dst.lazy import OPS, NotHere, gen_op

NAMES = ["one", "two", "jet", "mu"]
MIXED = ["num", "reg", "jag", "tab", "msk", "imsk", "bmsk", "idx", "str", "chk", "uni"]
COMP = [
    "default",
    None,
    True,
    zlib.compress,
    (lzma.compress, ("lzma", "decompress")),
    [{"minsize": 16, "types": [numpy.floating], "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}],
    [{"minsize": 0, "types": [numpy.integer], "contexts": ["JaggedArray.*", "Table.*"], "pair": (lzma.compress, ("lzma", "decompress"))},
     {"minsize": 8, "types": object, "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}],
]

ABSENT = "absent"


class Lost(Exception):
    """the name is not there"""


def build(spec, w):
    if spec["k"] in T.EXTRA:
        return T.build_extra(spec)
    if spec["k"] == "cyc":
        a = awkward0.JaggedArray(spec["starts"], spec["stops"], [])
        a.content = a
        return awkward0.IndexedArray(spec["index"], a) if spec["wrap"] else a
    return S.build(spec, w)


def value(spec):
    if spec["k"] in T.EXTRA:
        return T.value_extra(spec)
    if spec["k"] == "cyc":
        def node(i, depth=0):
            if depth > 20 or i >= len(spec["starts"]):
                raise PlanInvalid("cyc")
            return [node(j, depth + 1) for j in range(spec["starts"][i], spec["stops"][i])]
        return [node(i) for i in (spec["index"] if spec["wrap"] else range(len(spec["starts"])))]
    return S.norm(S.pyvalue(spec))


def strip(spec):
    return spec if spec["k"] in T.EXTRA or spec["k"] == "cyc" else S.strip(spec)


def gen_cyc(rng):
    """a tree whose content is itself, children stored in one block per node"""
    n = rng.randrange(1, 7)
    starts, stops = [0] * n, [0] * n
    nxt = 1
    for i in range(n):
        if nxt < n:
            m = rng.randrange(0, min(3, n - nxt) + 1)
            if m and i < nxt:
                starts[i], stops[i] = nxt, nxt + m
                nxt += m
    return {"k": "cyc", "starts": starts, "stops": stops, "index": [rng.randrange(n) for _ in range(rng.randrange(1, 4))], "wrap": rng.randrange(2)}


def norm(x):
    """a read array as plain data"""
    if isinstance(x, numpy.ndarray) and (x.dtype.kind in "cMSU" or x.dtype.names is not None):
        return T.plain(x)
    return S.norm(x)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, T.Point) or isinstance(b, T.Point):
        return a == b
    return S.same(a, b)


class Item(object):
    """an array, its eager twin, its value"""
    def __init__(self, a, e, v, resave=True, typed=True):
        self.a, self.e, self.v, self.resave, self.typed = a, e, v, resave, typed


# --------------------------------------------------------------------------- storages

class Backend(object):
    crashkeeps = True           # an interrupted process leaves the other names readable

    def __init__(self, w, cfg):
        self.w, self.cfg = w, cfg
        c = COMP[cfg.get("comp", 0) % len(COMP)]
        self.options = {} if isinstance(c, str) else {"compression": c}
        self.loadoptions = {}

    def restart(self):
        pass

    def close(self):
        pass

    def bytes(self):
        raise NotImplementedError


class MapBackend(Backend):
    def __init__(self, w, cfg):
        super(MapBackend, self).__init__(w, cfg)
        self.store = T.SimMap(w)
        for k in ("delimiter", "suffix", "schemasuffix"):
            if cfg.get(k) is not None:
                self.options[k] = cfg[k]

    def save(self, items, mode):
        for name, a in items:
            awkward0.persist.serialize(a, self.store, name, **self.options)

    def key(self, name):
        return name + self.options.get("schemasuffix", "")

    def load(self, name):
        if self.key(name) not in self.store.data:
            raise Lost(name)
        return awkward0.persist.deserialize(self.store, self.key(name), cache=self.w.cache if self.cfg.get("loadcache") else None)

    def view(self, whitelist):
        kw = {} if whitelist is None else {"whitelist": whitelist}
        return lambda name: awkward0.persist.deserialize(self.store, self.key(name), **kw)

    def names(self):
        return None

    def restart(self):
        self.store.dead = False

    def bytes(self):
        return dict(self.store.data)


class ZipBackend(Backend):
    crashkeeps = False

    def __init__(self, w, cfg):
        super(ZipBackend, self).__init__(w, cfg)
        for k in ("delimiter", "suffix", "schemasuffix"):
            if cfg.get(k):
                self.options[k] = cfg[k]
        self.disk = w.disk
        self.target = self.disk.path("data" if cfg.get("noext") else "data.awkd")
        self.real = self.disk.path("data.awkd")
        self.reader = None

    def file(self):
        return self.target

    def save(self, items, mode):
        if len(items) == 1 and self.cfg.get("byname"):
            awkward0.save(self.file(), items[0][1], name=items[0][0], mode=mode, **self.options)
        else:
            awkward0.save(self.file(), dict(items), mode=mode, **self.options)

    def open(self):
        if self.reader is not None:
            return self.reader
        opts = {}
        if "schemasuffix" in self.options:
            opts["schemasuffix"] = self.options["schemasuffix"]
        if self.cfg.get("loadcache"):
            opts["cache"] = self.w.cache
        f = awkward0.load(self.source(), **opts)
        if self.cfg.get("keepopen") and isinstance(f, awkward0.persist.Load):
            self.reader = f
        return f

    def source(self):
        return self.real

    def view(self, whitelist):
        """a reader with a whitelist of its own"""
        kw = {} if whitelist is None else {"whitelist": whitelist}
        if "schemasuffix" in self.options:
            kw["schemasuffix"] = self.options["schemasuffix"]

        def read(name):
            self.drop()
            f = awkward0.load(self.source(), **kw)
            if not isinstance(f, awkward0.persist.Load):
                return f
            try:
                return f[name]
            finally:
                f.close()
        return read

    def exists(self):
        import os
        return os.path.exists(self.real)

    def load(self, name):
        if not self.exists():
            raise Lost(name)
        f = self.open()
        if not isinstance(f, awkward0.persist.Load):
            if name != "":
                raise Lost(name)
            return f
        try:
            if name not in list(f):
                raise Lost(name)
            return f[name]
        finally:
            if f is not self.reader:
                f.close()

    def names(self):
        if not self.exists():
            return []
        f = self.open()
        if not isinstance(f, awkward0.persist.Load):
            return [""]
        try:
            out = list(f)
            if len(f) != len(out):
                raise Violation("{0}:len", "the archive says it has {0} members and lists {1}".format(len(f), out))
            return out
        finally:
            if f is not self.reader:
                f.close()

    def drop(self):
        """the reader is closed: what follows opens the file again"""
        if self.reader is not None:
            self.reader.close()
            self.reader = None

    def restart(self):
        self.reader = None
        gc.collect(1)
        self.disk.reboot()

    def bytes(self):
        if not self.exists():
            return None
        with self.disk.saved["open"](self.real, "rb") as f:
            return f.read()

    def close(self):
        self.drop()


class ObjBackend(ZipBackend):
    """an archive in a file-like object"""
    def __init__(self, w, cfg):
        super(ObjBackend, self).__init__(w, cfg)
        self.obj = T.SimFileObj()
        self.obj.world = w

    def file(self):
        return self.obj

    source = file

    def exists(self):
        return True

    def names(self):
        if not self.obj.getvalue():
            return []
        return super(ObjBackend, self).names()

    def load(self, name):
        if not self.obj.getvalue():
            raise Lost(name)
        return super(ObjBackend, self).load(name)

    def restart(self):
        self.reader = None
        new = T.SimFileObj(self.obj.getvalue())
        new.world = self.w
        self.obj = new

    def bytes(self):
        return self.obj.getvalue()


class H5Backend(Backend):
    def __init__(self, w, cfg):
        super(H5Backend, self).__init__(w, cfg)
        from dst import simh5
        self.simh5 = simh5
        self.bio = io.BytesIO()
        self.file = None
        self.openfile("w")

    def openfile(self, mode):
        import h5py
        self.file = h5py.File(self.bio, mode)
        self.group = self.simh5.wrap(self.file, self.w)
        opts = dict(self.options)
        if self.cfg.get("loadcache"):
            opts["cache"] = self.w.cache
        self.h = awkward0.hdf5(self.group, **opts)

    def view(self, whitelist):
        kw = {} if whitelist is None else {"whitelist": whitelist}
        return lambda name: awkward0.hdf5(self.group, **kw)[name]

    def save(self, items, mode):
        for name, a in items:
            self.h[name] = a

    def load(self, name):
        if name not in list(self.h):
            raise Lost(name)
        return self.h[name]

    def names(self):
        out = list(self.h)
        if len(self.h) != len(out):
            raise Violation("{0}:len", "the group says it has {0} members and lists {1}".format(len(self.h), out))
        return out

    def restart(self):
        self.h = self.group = None
        self.file.close()
        self.simh5.reboot()
        self.openfile("a")

    def close(self):
        self.h = self.group = None
        if self.file is not None:
            self.file.close()
            self.file = None

    def bytes(self):
        return self.simh5.snapshot(self.file)


class PickleBackend(Backend):
    def __init__(self, w, cfg):
        super(PickleBackend, self).__init__(w, cfg)
        self.data = {}

    def save(self, items, mode):
        for name, a in items:
            if not isinstance(a, awkward0.AwkwardArray):
                a = awkward0.Table(column=a)        # plain Numpy arrays are Numpy's business
            self.data[name] = pickle.dumps(a, self.cfg.get("protocol", 2) % (pickle.HIGHEST_PROTOCOL + 1))

    def load(self, name):
        if name not in self.data:
            raise Lost(name)
        out = pickle.loads(self.data[name])
        return out["column"] if isinstance(out, awkward0.Table) and out.columns == ["column"] else out

    def names(self):
        return None

    def bytes(self):
        return dict(self.data)


BACKENDS = {"map": MapBackend, "zip": ZipBackend, "obj": ObjBackend, "h5": H5Backend, "pickle": PickleBackend}


def kids(x):
    """parts that are stored as they are"""
    if isinstance(x, awkward0.VirtualArray):
        return []
    if isinstance(x, awkward0.Table):
        return list(x._contents.values())
    if isinstance(x, awkward0.AppendableArray):
        return []
    if isinstance(x, awkward0.ChunkedArray):
        return list(x.chunks) if len(x._chunksizes) == len(x._chunks) and all(x._chunksizes) else [None]
    if isinstance(x, (awkward0.MaskedArray, awkward0.IndexedArray)) and not isinstance(x, awkward0.SparseArray):
        return [x.content]
    if isinstance(x, awkward0.UnionArray):
        return list(x.contents)
    return []


def oddities(e):
    """(has a part that selects nothing, has such a part over an indexed array or objects)"""
    empty = objects = False
    todo, seen = [(e, False, False)], []
    while todo:
        x, over, inside = todo.pop()        # inside: what is stored may be a part of x
        if any(y is x and o >= (over, inside) for y, o in seen):
            continue
        seen.append((x, (over, inside)))
        if isinstance(x, numpy.ndarray):
            objects = objects or x.dtype.hasobject
            continue
        if not isinstance(x, awkward0.AwkwardArray):
            continue
        if over and isinstance(x, awkward0.IndexedArray):
            objects = True
        if isinstance(x, awkward0.JaggedArray):
            counts = x.counts
            nothing = len(counts) == 0 or int(counts.sum()) == 0 or inside and not counts.all()
            empty = empty or nothing
            todo.append((x.content, over or nothing, True))
        elif isinstance(x, awkward0.Table):
            todo.extend((y, over, True) for y in x._contents.values())
        elif isinstance(x, awkward0.ChunkedArray):
            todo.extend((y, over, inside) for y in x.chunks)
        elif isinstance(x, awkward0.UnionArray):
            todo.extend((y, over, True) for y in x.contents)
        elif isinstance(x, (awkward0.MaskedArray, awkward0.IndexedArray)) and not isinstance(x, awkward0.SparseArray):
            nothing = isinstance(x, awkward0.IndexedArray) and len(x) == 0
            empty = empty or nothing
            todo.append((x.content, over or nothing, True))
    return empty, objects


class StorageCheck(Check):
    kinds = [("map", 3), ("zip", 4), ("obj", 2), ("h5", 2), ("pickle", 1)]
    faulty = False
    names = NAMES

    # ------------------------------------------------------------------ generation
    def worker_init(self):
        import h5py  # noqa: F401  (before the collector is frozen)

    def gencfg(self, rng, tier):
        cfg = {"kind": rng.wpick(self.kinds), "comp": rng.pick([0, 0, 1, 2, 3, 4, 5, 6]),
               "cache": rng.wpick([("none", 2), ("sim", 3), ("dict", 1), ("drop", 1), ("lru", 1)]), "capacity": 2,
               "opts": [rng.pick([0, 0, 1]) | rng.pick([0, 0, 2]) | rng.pick([0, 0, 0, 8]) | rng.pick([0, 16]) | rng.pick([0, 0, 0, 64]) for _ in range(3)],
               "evict": [rng.pick([1, 2, 3]) if rng.chance(0.2) else 0 for _ in range(rng.randrange(0, 20))],
               "loadcache": rng.randrange(2)}
        if cfg["kind"] == "map":
            cfg["delimiter"] = rng.pick([None, "-", "", "/"])
            cfg["suffix"] = rng.pick([None, ".bin"])
            cfg["schemasuffix"] = rng.pick([None, ".schema"])
        elif cfg["kind"] in ("zip", "obj"):
            cfg["delimiter"] = rng.pick([None, None, "_", "/"])
            cfg["suffix"] = rng.pick([None, None, ".bin"])
            cfg["schemasuffix"] = rng.pick([None, None, ".js"])
            cfg["byname"] = rng.randrange(2)
            cfg["noext"] = rng.randrange(2)
            cfg["keepopen"] = rng.randrange(2)
            if cfg["kind"] == "zip":
                cfg["short"] = rng.pick([[], [], [1], [0, 1], [0, 0, 1]])
                cfg["bufsize"] = rng.pick([16, 64, 512, 8192])
        elif cfg["kind"] == "pickle":
            cfg["protocol"] = rng.randrange(6)
        return cfg

    def genroot(self, rng, ser):
        r = rng.random()
        if r < 0.25:
            return T.gen_extra(rng, ser, rng.randrange(0, 7))
        if r < 0.32:
            return gen_cyc(rng)
        allow = [k for k in MIXED if k != "reg" or rng.chance(0.3)]
        sp = S.gen(rng, rng.randrange(0, 7), rng.randrange(0, 3), ser, allow=allow, virtual=rng.pick([0, 0, 0.3]))
        if rng.chance(0.15) and sp["k"] != "vir":
            sp = {"k": "vir", "c": sp}
        return sp

    def genmake(self, rng):
        how = rng.pick(["tab", "tab", "tab", "chk", "idx", "msk", "jag", "uni", "derive", "derive", "derive"])
        op = {"op": "make", "how": how, "on": rng.randrange(8)}
        if how == "tab":
            op["refs"] = [rng.randrange(8) for _ in range(rng.randrange(1, 4))]
            op["cs"] = rng.sample(["x", "y", "z", "0", "col umn"], len(op["refs"]))
        elif how == "derive":
            op["d"] = gen_op(rng, ["slice", "fancy", "mask", "col", "cols", "copy", "add1"])
        else:
            op["ints"] = [rng.randrange(8) for _ in range(rng.randrange(1, 6))]
            op["ref"] = rng.randrange(8)
        return op

    def gensave(self, rng):
        op = {"op": "save", "items": [[rng.randrange(len(self.names)), rng.randrange(8)]], "mode": rng.wpick([("a", 6), ("w", 1), ("x", 0.5)])}
        if rng.chance(0.25):
            op["items"].append([rng.randrange(len(self.names)), rng.randrange(8)])
        return op

    def genops(self, rng, tier):
        ops = []
        for _ in range(rng.randrange(0, 4)):
            ops.append(self.genmake(rng))
        for _ in range(rng.randrange(2, 8)):
            r = rng.random()
            if r < 0.4:
                ops.append(self.gensave(rng))
            elif r < 0.6:
                ops.append({"op": "load", "name": rng.randrange(len(self.names)), "keep": rng.randrange(2)})
            elif r < 0.7:
                ops.append({"op": "restart"})
            elif r < 0.8:
                ops.append({"op": "touch", "on": rng.randrange(8)})
            elif r < 0.85:
                ops.append({"op": "evictall"})
            elif r < 0.9:
                ops.append({"op": "list"})
            else:
                ops.append(self.genmake(rng))
        return ops

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = [self.genroot(rng, ser) for _ in range(rng.randrange(1, 4))]
        plan = {"cfg": self.gencfg(rng, tier), "roots": roots, "edits": [], "ops": self.genops(rng, tier), "ids": rng.pick(["now", "now", "later", "never"])}
        for i, sp in enumerate(roots):
            c = sp["c"] if sp["k"] == "vir" else sp
            if c["k"] == "tab" and rng.chance(0.5):
                n = S.length(c)
                for _ in range(rng.randrange(1, 3)):
                    col = rng.pick(["x", "y", "w"])
                    plan["edits"].append([i, col, None if rng.chance(0.3) else S.gen_leaf(rng, n, ser, "i8")])
        return plan

    # ------------------------------------------------------------------ execution
    def execute(self, plan, ctx):
        cfg = plan["cfg"]
        w = T.StoreWorld(ctx, cfg)
        w.torn = w.after = 0
        T.SOURCE = w
        whitelist = awkward0.persist.whitelist
        whitelist.append(T.WHITE)
        try:
            with T.Disk(w, cfg) as disk:
                w.disk = disk
                if cfg["kind"] not in BACKENDS:
                    raise PlanInvalid("kind")
                back = BACKENDS[cfg["kind"]](w, cfg)
                try:
                    self.run(plan, ctx, w, back)
                finally:
                    w.armed = None
                    disk.capacity = None
                    back.close()
        finally:
            whitelist.remove(T.WHITE)
            T.SOURCE = None

    def roots(self, plan, ctx, w):
        pool = []
        for sp in plan["roots"]:
            pool.append(Item(build(sp, w), build(strip(sp), None), value(sp), sp["k"] != "cyc"))
        for i, col, sp in plan["edits"]:
            if i >= len(pool) or not all(isinstance(r, dict) for r in pool[i].v) or plan["roots"][i]["k"] not in ("vir", "tab"):
                raise PlanInvalid("edit")
            it = pool[i]
            ctx.sched("edit", i, col, sp is None)
            if sp is None:
                if len(it.e.columns) > 1 and col in it.e.columns:
                    del it.a[col]
                    del it.e[col]
                    for r in it.v:
                        del r[col]
            else:
                vals = S.pyvalue(sp)
                if len(vals) != len(it.v):
                    raise PlanInvalid("edit")
                it.a[col] = S.build(sp)
                it.e[col] = S.build(sp)
                for r, x in zip(it.v, vals):
                    r[col] = x
            ctx.probe("edited")
        for it in pool:
            self.judge(it)
        return pool

    def judge(self, it):
        """what can be asked of an array"""
        if not self.readable(it):
            it.resave = None        # nothing to compare with where the ordinary array itself cannot be read
            return
        empty, objects = oddities(it.e)
        if objects:
            it.resave = None        # an empty selection of an indexed array is an array of objects
        if empty:
            it.typed = False        # an empty part of a chunked or indexed array has lost its type

    def readable(self, it):
        try:
            return same(norm(it.e), it.v)
        except Exception:
            return False

    def make(self, ctx, pool, op):
        """a new array out of those in the pool, on both sides and in the model"""
        def get(k):
            return pool[k % len(pool)]
        how = op["how"]
        if how == "derive":
            it = get(op["on"])
            d = op["d"]
            fcn, model = OPS[d["op"]]
            n = len(it.v)
            try:
                e = fcn(it.e, d, n)
                v = norm(e)
                if model is not None:
                    try:
                        if not same(model(it.v, d, n), v) and d["op"] != "cols":
                            return None
                    except NotHere:
                        return None
                if not isinstance(e, (numpy.ndarray, awkward0.AwkwardArray)) or isinstance(v, (int, float)) or getattr(e, "shape", (1,)) == ():
                    return None
            except Exception:
                return None
            if isinstance(e, numpy.ndarray) and e.dtype.hasobject:
                return None
            try:
                a = fcn(it.a, d, n)
            except Exception as err:
                if isinjected(err):
                    raise
                return None         # lazy arrays and ordinary ones agreeing is C03's business
            new = Item(a, e, v, it.resave, it.typed)
            self.judge(new)
            return new if new.resave is not None or it.resave is None else None
        if how == "tab":
            its = [get(k) for k in op["refs"]]
            if any(it.resave is None for it in its) or len(its) != len(op["cs"]) or not its or len(set(op["cs"])) != len(op["cs"]):
                return None
            n = min(len(it.v) for it in its)
            out = []
            for side in ("a", "e"):
                t = awkward0.Table()
                for c, it in zip(op["cs"], its):
                    t.contents[c] = getattr(it, side)
                out.append(t)
            v = [dict((c, it.v[i]) for c, it in zip(op["cs"], its)) for i in range(n)]
        else:
            it, other = get(op["on"]), get(op["ref"])
            if not it.resave or not other.resave:
                return None
            its = [it]
            n = len(it.v)
            ints = op["ints"]
            if how == "idx":
                index = [i % n for i in ints] if n else []
                out = [awkward0.IndexedArray(numpy.array(index, dtype="i8"), x) for x in (it.a, it.e)]
                v = [it.v[i] for i in index]
            elif how == "msk":
                mask = [bool(ints[i % len(ints)] % 2) for i in range(n)] if ints else []
                if len(mask) != n:
                    return None
                out = [awkward0.MaskedArray(numpy.array(mask, dtype=bool), x, maskedwhen=True) for x in (it.a, it.e)]
                v = [None if m else x for m, x in zip(mask, it.v)]
            elif how == "jag":
                bounds = sorted(i % (n + 1) for i in ints)
                starts = numpy.array(bounds[::2][: len(bounds) // 2], dtype="i8")
                stops = numpy.array(bounds[1::2][: len(bounds) // 2], dtype="i8")
                out = [awkward0.JaggedArray(starts, stops, x) for x in (it.a, it.e)]
                v = [it.v[i:j] for i, j in zip(starts, stops)]
            elif how == "chk":
                if not ints:
                    return None
                if ints[0] % 2:
                    out = [awkward0.ChunkedArray([x, x]) for x in (it.a, it.e)]
                    v = it.v + it.v
                else:
                    out = [awkward0.ChunkedArray([x]) for x in (it.a, it.e)]
                    v = list(it.v)
            elif how == "uni":
                its = [it, other]
                tags, index, v = [], [], []
                for i in ints:
                    t = i % 2
                    if its[t].resave is not None and len(its[t].v):
                        tags.append(t)
                        index.append(i % len(its[t].v))
                        v.append(its[t].v[i % len(its[t].v)])
                if not tags:
                    return None
                out = [awkward0.UnionArray(numpy.array(tags, dtype="u1"), numpy.array(index, dtype="i8"), [x, y]) for x, y in ((it.a, other.a), (it.e, other.e))]
            else:
                raise PlanInvalid("how")
        if any(x.resave is None for x in its):
            return None
        new = Item(out[0], out[1], S.norm(v) if not any(isinstance(x, T.Point) for x in v) else v, all(x.resave for x in its), all(x.typed for x in its))
        self.judge(new)
        if new.resave is None:
            return None             # the library cannot read this combination at all
        ctx.probe("composed")
        return new

    def run(self, plan, ctx, w, back):
        raise NotImplementedError

    # ------------------------------------------------------------------ pieces
    def v(self, what, detail):
        return Violation(self.prop + ":" + what, detail)

    def compare(self, ctx, got, item, name):
        """what was read against what was stored"""
        ctx.checks += 1
        value = norm(got)
        ctx.log("read", name, "=", S.show(value, 200))
        if not same(value, item.v):
            raise self.v("value", "{0} was stored as {1}, reads as {2}".format(name, S.show(item.v), S.show(value)))
        if item.type is not None:
            t = self.typeof(got)
            if t is not None and t != item.type:
                raise self.v("type", "{0} was stored with type {1}, reads as type {2}".format(name, S.show(item.type), S.show(t)))

    def typeof(self, x):
        try:
            return S.typeform(x.type if isinstance(x, awkward0.AwkwardArray) else awkward0.type.fromarray(x))
        except Exception:
            return None


class Stored(object):
    """what a name stands for"""
    def __init__(self, check, it):
        self.v, self.a = it.v, it.a
        self.type = check.typeof(it.e) if it.typed else None
        self.cls = type(it.a)
        self.e = it.e
        self.cyc = not it.resave
        self.shape = None if self.cyc else outline(it.a)
        if self.shape is not None and "?" in self.shape:
            self.shape = None


def outline(x, seen=None, depth=0):
    """classes of the parts that are stored as they are; #k marks a part seen before"""
    if x is None:
        return "?"
    if seen is None:
        seen = []
    for i, y in enumerate(seen):
        if y is x:
            return "#%d" % i
    seen.append(x)
    if depth > 8:
        return "..."
    if isinstance(x, awkward0.VirtualArray) and not x.persistvirtual:
        return "?"
    return "{0}({1})".format(type(x).__name__, ",".join(outline(y, seen, depth + 1) for y in kids(x)))

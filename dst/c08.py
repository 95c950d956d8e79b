"""C08: appending to a growable array refines a list, also when appends fail."""
import copy
import gc

import numpy

import awkward0

from dst import spec as S
from dst.core import FAULTS, Check, PlanInvalid, SimFault, Violation, isinjected, short

DTYPES = ["i8", "i8", "f8", "f8", "i4", "f4", "u1", "bool", "U4"]


class NumpyProxy(object):
    """numpy as the library sees it, with allocations that may fail"""
    ALLOC = ("empty", "zeros", "ones", "full", "arange", "array")

    def __init__(self, sim):
        self.__dict__["sim"] = sim
        self.__dict__["real"] = numpy

    def __getattr__(self, name):
        out = getattr(numpy, name)
        if name in NumpyProxy.ALLOC and self.sim.armed is not None:
            sim = self.sim

            def alloc(*args, **kwargs):
                sim.alloc(name)
                return out(*args, **kwargs)
            return alloc
        return out


class Grow(object):
    """one simulated process with growable arrays"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.armed = None
        self.fired = None

    def event(self, kind):
        if self.armed is None or kind not in self.armed[1]:
            return
        n, kinds, exc = self.armed
        if n > 0:
            self.armed = (n - 1, kinds, exc)
            return
        self.armed = None
        self.fired = FAULTS[exc]("injected")
        self.ctx.fault(kind + ":" + exc)
        self.ctx.sched("FAULT", kind, exc)
        raise self.fired

    def alloc(self, name):
        self.event("alloc")

    def arm(self, fault):
        self.fired = None
        if fault:
            if fault["exc"] not in FAULTS:
                raise PlanInvalid("exc")
            self.armed = (fault["at"], (fault["kind"],), fault["exc"])

    def disarm(self):
        self.armed = None
        fired, self.fired = self.fired, None
        return fired


class Source(object):
    """something with a length and slices that may fail while it is read"""
    def __init__(self, sim, values, style):
        self.sim, self.values, self.style = sim, values, style

    def __len__(self):
        self.sim.event("source")
        return len(self.values)

    def __getitem__(self, where):
        self.sim.event("source")
        if isinstance(where, slice):
            return Source(self.sim, self.values[where], self.style)
        return self.values[where]

    def __array__(self, dtype=None):
        self.sim.event("source")
        return numpy.array(self.values) if dtype is None else numpy.array(self.values).astype(dtype)


class Value(object):
    """a number that may fail to be one"""
    def __init__(self, sim, value):
        self.sim, self.value = sim, value

    def __float__(self):
        self.sim.event("value")
        return float(self.value)

    def __int__(self):
        self.sim.event("value")
        return int(self.value)

    __index__ = __int__

    def __bool__(self):
        self.sim.event("value")
        return bool(self.value)

    def __str__(self):
        self.sim.event("value")
        return str(self.value)


def cast(value, dt, inner):
    """one element as the array holds it, or raises"""
    tmp = numpy.empty((1,) + tuple(inner), dtype=dt)
    tmp[0] = value
    return S.norm(tmp)[0]


READS = {
    "index": (lambda a, o, n: a[o["i"]], lambda v, o: v[o["i"]]),
    "slice": (lambda a, o, n: a[o["lo"]:o["hi"]:o["st"] or None], lambda v, o: v[o["lo"]:o["hi"]:o["st"] or None]),
    "fancy": (lambda a, o, n: a[numpy.array([i % n for i in o["idx"]] if n else [], dtype="i8")], lambda v, o: [v[i % len(v)] for i in o["idx"]] if v else []),
    "mask": (lambda a, o, n: a[numpy.array([bool((o["bits"] >> i) & 1) for i in range(n)], dtype=bool)], lambda v, o: [x for i, x in enumerate(v) if (o["bits"] >> i) & 1]),
    "len": (lambda a, o, n: len(a), lambda v, o: len(v)),
    "tolist": (lambda a, o, n: a.tolist(), lambda v, o: v),
    "numpy": (lambda a, o, n: numpy.array(a), lambda v, o: v),
    "list": (lambda a, o, n: list(a), lambda v, o: v),
    "add": (lambda a, o, n: a + 1, None),
    "eq": (lambda a, o, n: a == a, lambda v, o: None),
    "sum": (lambda a, o, n: a.sum(), None),
    "max": (lambda a, o, n: a.max(), None),
    "oob": (lambda a, o, n: a[[n, n + 2, -n - 1][o["i"] % 3]], None),
    "copy": (lambda a, o, n: a.copy(), lambda v, o: v),
    "deepcopy": (lambda a, o, n: copy.deepcopy(a), lambda v, o: v),
    "shallow": (lambda a, o, n: copy.copy(a), lambda v, o: v),
    "concat": (lambda a, o, n: a.concatenate([a]), lambda v, o: v + v),
    "str": (lambda a, o, n: (str(a), repr(a))[0] is not None, lambda v, o: True),
    "rev": (lambda a, o, n: a[::-1], lambda v, o: v[::-1]),
    "sliceslice": (lambda a, o, n: a[o["lo"]:][:o["hi"]], lambda v, o: v[o["lo"]:][:o["hi"]]),
    "astype": (lambda a, o, n: a.astype("f8"), None),
    "chunk": (lambda a, o, n: a.chunks[-1] if n else None, None),
    "type": (lambda a, o, n: len(str(a.type)) > 0, lambda v, o: True),
    "offsets": (lambda a, o, n: [int(x) for x in a.offsets][-1:], lambda v, o: [len(v)]),
    "g2l": (lambda a, o, n: None if not n else (lambda c, j: c[int(j)])(*a.global2local(o["i"] % n)), lambda v, o: v[o["i"] % len(v)] if v else None),
    "zeros": (lambda a, o, n: a.zeros_like(), None),
}


class C08(Check):
    prop = "C08"
    quick_runs = 24000
    thorough_runs = 900000
    rule = "non-trivial: an append or extend failed part way, or an extend crossed a chunk boundary; distinct by event-sequence hash"
    real = ["AppendableArray and ChunkedArray"]
    stub = ["numpy allocations (fail on schedule)", "sources and values handed to append/extend (fail on schedule)"]
    assumptions = ["elements handed to extend have the declared shape", "values are cast to the declared dtype as Numpy assigns them"]
    required_probes = ["extend-prefix", "boundary", "append-failed", "alloc-failed", "self-extend"]
    snapshots = False

    def gen(self, rng, tier):
        inner = rng.pick([[], [], [], [2], [1], [2, 2]])
        dt = rng.pick(DTYPES)
        if inner and dt == "U4":
            dt = "i8"
        ser = S.Serial()
        arrays = []
        for _ in range(rng.pick([1, 1, 2])):
            chunks = [self.values(rng, ser, rng.randrange(0, 4), dt, inner) for _ in range(rng.pick([0, 0, 0, 1, 2]))]
            arrays.append({"size": rng.pick([1, 2, 2, 3, 4, 6]), "chunks": chunks})
        ops = []
        for _ in range(rng.randrange(3, 18)):
            r = rng.random()
            on = rng.pick([0, 0, 0, rng.randrange(6)])
            if r < (0.28 if self.snapshots else 0.35):
                op = {"op": "append", "v": self.values(rng, ser, 1, dt, inner)[0], "wrap": rng.chance(0.3)}
                if dt != "bool" and rng.chance(0.12):
                    op["v"] = rng.pick(self.bad(dt, inner))
                    op["bad"] = True
                if rng.chance(0.2):
                    op["fault"] = {"kind": rng.pick(["alloc", "value"]), "exc": rng.pick(["mem", "value", "type", "runtime", "index", "interrupt"]), "at": rng.pick([0, 0, 0, 1])}
                    if op["fault"]["kind"] == "value":
                        op["wrap"] = True
            elif r < (0.5 if self.snapshots else 0.6):
                op = {"op": "extend", "vs": self.values(rng, ser, rng.randrange(0, 9), dt, inner), "src": rng.pick(["list", "list", "tuple", "array", "chunked", "appendable", "source", "source", "virtual", "strided"])}
                if dt != "bool" and rng.chance(0.2):
                    # one bad element
                    if op["vs"]:
                        op["vs"][rng.randrange(len(op["vs"]))] = rng.pick(self.bad(dt, inner))
                    op["src"] = rng.pick(["list", "source", "list"])
                    op["bad"] = True
                if rng.chance(0.3):
                    op["fault"] = {"kind": rng.pick(["alloc", "source"]), "exc": rng.pick(["mem", "value", "type", "runtime", "index", "io", "stop", "interrupt"]), "at": rng.randrange(0, 5)}
                    if op["fault"]["kind"] == "source":
                        op["src"] = "source"
            elif r < 0.65:
                op = {"op": rng.pick(["selfextend", "selfslice", "other"]), "lo": rng.randrange(0, 3), "hi": rng.randrange(2, 9)}
                if rng.chance(0.2):
                    op["fault"] = {"kind": "alloc", "exc": "mem", "at": rng.randrange(0, 3)}
            elif r < 0.7:
                op = {"op": rng.pick(["open", "next", "next", "gc"])}
            else:
                op = {"op": rng.pick(sorted(READS))}
            op["on"] = on
            op.setdefault("i", rng.randrange(0, 9))
            if op["op"] == "index":
                op["i"] = rng.randrange(-9, 9)
            if op["op"] in ("slice", "sliceslice"):
                op["lo"], op["hi"], op["st"] = rng.pick([None, 0, 1, 2, 4, -1, -3]), rng.pick([None, 1, 3, 5, 8, -1]), rng.pick([None, None, 2, -1])
            if op["op"] == "fancy":
                op["idx"] = [rng.randrange(12) for _ in range(rng.randrange(0, 5))]
            if op["op"] == "mask":
                op["bits"] = rng.randrange(1 << 14)
            ops.append(op)
        return {"dt": dt, "inner": inner, "arrays": arrays, "ops": ops, "tuple": rng.chance(0.5), "ids": "now", "same": int(rng.chance(0.25))}

    @staticmethod
    def bad(dt, inner):
        out = [[1, 2, 3, 4, 5]] if dt != "bool" else []
        if dt not in ("bool", "U4"):
            out += ["word", {"x": 1}]
        return out

    @staticmethod
    def values(rng, ser, n, dt, inner):
        def one(shape):
            if shape:
                return [one(shape[1:]) for _ in range(shape[0])]
            v = ser.next()
            if dt in ("f8", "f4"):
                return v + 0.5
            if dt == "bool":
                return bool(rng.randrange(2))
            if dt == "U4":
                return "s%d" % v
            return v % 200
        return [one(inner) for _ in range(n)]

    def execute(self, plan, ctx):
        dt, inner = numpy.dtype({"bool": numpy.bool_}.get(plan["dt"], plan["dt"])), plan["inner"]
        sim = Grow(ctx)
        base = awkward0.array.base.AwkwardArray
        saved = base.numpy
        if "alloc" in [op.get("fault", {}).get("kind") for op in plan["ops"]]:
            base.numpy = NumpyProxy(sim)
        try:
            self.play(plan, ctx, sim, dt, inner)
        finally:
            base.numpy = saved

    def formed(self, x, plan, inner):
        """an element, or one of the things that are none"""
        if x in self.bad(plan["dt"], plan["inner"]):
            return True
        if inner:
            return isinstance(x, list) and len(x) == inner[0] and all(self.formed(y, plan, inner[1:]) and not isinstance(y, dict) for y in x)
        return isinstance(x, {"U4": str, "bool": bool}.get(plan["dt"], (int, float)))

    def play(self, plan, ctx, sim, dt, inner):
        handles, snaps, its, given, lists = [], [], [], [], []
        for spec in plan["arrays"]:
            chunks = [numpy.array(c, dtype=dt).reshape([len(c)] + inner) for c in spec["chunks"]]
            given.extend((c, S.norm(c)) for c in chunks)
            shape = tuple([spec["size"]] + inner) if inner or plan.get("tuple") else spec["size"]
            if plan.get("same") and lists:
                spec, chunks = lists[0]     # another array made of the very same list of chunks
            else:
                lists.append((spec, chunks))
            a = awkward0.AppendableArray(shape, dt, chunks) if chunks or plan.get("same") else awkward0.AppendableArray(shape, dt)
            handles.append([a, [cast(x, dt, inner) for c in spec["chunks"] for x in c], dt])
        if not handles:
            raise PlanInvalid("no arrays")
        for op in plan["ops"]:
            for x in op.get("vs", []) + ([op["v"]] if "v" in op else []):
                if not self.formed(x, plan, inner):
                    raise PlanInvalid("element")

        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "gc":
                gc.collect()
                continue
            k = op["on"] % len(handles)
            h = handles[k]
            a, v, hdt = h
            ctx.sched("op", step, name, k)
            if name in ("append", "extend", "selfextend", "selfslice", "other"):
                self.grow(ctx, sim, handles, h, op, hdt, inner, step, snaps)
                before = h[1]
            elif name == "open":
                its.append([iter(a), 0, h])
            elif name == "next":
                if its:
                    self.advance(ctx, its[op["i"] % len(its)], 1 + op["i"] // 3)
            elif name in READS:
                res = self.read(ctx, a, v, op, hdt, step, snaps, handles)
            else:
                raise PlanInvalid("op")
            for j, (x, w, d) in enumerate(handles):
                self.equal(ctx, x, w, "array {0} after {1}".format(j, self.shown(op)))
            for x, w, what in snaps:
                self.frozen(ctx, x, w, what, op)
        for c, w in given:
            if not S.same(S.norm(c), w):
                raise Violation(self.prop + ":given", "a chunk handed to the constructor was changed to {0}".format(S.show(S.norm(c))))
        for spec, chunks in lists:
            if len(chunks) != len(spec["chunks"]):
                raise Violation(self.prop + ":given", "the list of chunks handed to the constructor has {0} chunks now, not {1}".format(len(chunks), len(spec["chunks"])))
        for it in its:
            self.advance(ctx, it, 1000)
            if it[0] is not None:
                raise Violation(self.prop + ":iterator", "an iterator does not stop")
        for j, (x, w, d) in enumerate(handles):
            # the array goes on working
            new = cast(1, d, inner)
            x.append(new)
            w.append(new)
            self.equal(ctx, x, w, "array {0} after one more append".format(j))

    @staticmethod
    def shown(op):
        return dict((k, v) for k, v in op.items() if k != "on")

    def equal(self, ctx, a, v, what):
        ctx.checks += 1
        if len(a) != len(v):
            raise Violation(self.prop + ":length", "{0}: length {1}, expected {2}".format(what, len(a), len(v)))
        got = S.norm(a)
        if not S.same(got, v):
            raise Violation(self.prop + ":value", "{0}: {1}, expected {2}".format(what, S.show(got), S.show(v)))

    def frozen(self, ctx, x, w, what, op):
        ctx.checks += 1
        got = S.norm(x)
        if not S.same(got, w):
            raise Violation(self.prop + ":snapshot", "{0} was {1}; after {2} it reads {3}".format(what, S.show(w), self.shown(op), S.show(got)))

    def grow(self, ctx, sim, handles, h, op, dt, inner, step, snaps):
        a, v, _ = h
        name = op["op"]
        prefix = True
        if name == "append":
            value = op["v"]
            try:
                new = [cast(value, dt, inner)]
            except Exception:
                new = None
            prefix = False
            if op.get("wrap") and isinstance(value, (int, float)) and not inner:
                value = Value(sim, value)
            call = lambda: a.append(value)
        elif name == "extend":
            values = op["vs"]
            new = []
            for x in values:
                try:
                    new.append(cast(x, dt, inner))
                except Exception:
                    new.append(None)
            src = op["src"]
            if any(x is None for x in new) and src not in ("list", "tuple", "source"):
                src = "list"
            arr = None
            if src in ("array", "chunked", "appendable", "virtual", "strided"):
                arr = numpy.array(values, dtype=dt).reshape([len(values)] + inner)
            if src == "tuple":
                values = tuple(values)
            elif src == "array":
                values = arr
            elif src == "strided":
                values = numpy.concatenate([arr, arr])[: len(arr)] if len(arr) < 2 else numpy.repeat(arr, 2, axis=0)[::2]
            elif src == "chunked":
                m = len(arr) // 2
                values = awkward0.ChunkedArray([arr[:m], arr[m:]])
            elif src == "appendable":
                values = awkward0.AppendableArray(tuple([3] + inner), dt, [arr])
            elif src == "virtual":
                values = awkward0.VirtualArray(lambda: arr)
            elif src == "source":
                values = Source(sim, values, 0)
            call = lambda: a.extend(values)
        elif name == "selfextend":
            new = list(v)
            ctx.probe("self-extend")
            call = lambda: a.extend(a)
        elif name == "selfslice":
            new = v[op["lo"]:op["hi"]]
            call = lambda: a.extend(a[op["lo"]:op["hi"]])
        else:
            other, w, odt = handles[op["hi"] % len(handles)]
            new = [cast(x, dt, inner) for x in w]
            call = lambda: a.extend(other)
        if len(v) + len(new or []) > 200:
            return
        nchunks = len(a._chunks)
        err = None
        sim.arm(op.get("fault"))
        try:
            call()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = sim.disarm()
        ctx.log(step, name, "raised " + type(err).__name__ if err is not None else "ok")
        if len(a._chunks) > nchunks + 1:
            ctx.probe("boundary")
            ctx.nontrivial = True
        shown = self.shown(op)
        if err is None:
            if name == "append":
                if new is None:
                    raise Violation(self.prop + ":accepted", "{0} was accepted, but {1!r} is no element of dtype {2}, shape {3}".format(shown, op["v"], dt, inner))
                v.extend(new)
            elif None in new:
                # numpy may accept all of them together; what is there must be elements of the source
                raise Violation(self.prop + ":accepted", "{0} was accepted, with elements that are not of dtype {1}, shape {2}".format(shown, dt, inner))
            else:
                v.extend(new)
            return
        if not fired and not (new is None or None in new):
            raise Violation(self.prop + ":raises", "{0} on {1}: {2}".format(shown, S.show(v), short(err)))
        ctx.nontrivial = True
        if fired:
            ctx.probe("alloc-failed" if op["fault"]["kind"] == "alloc" else "source-failed")
        if name == "append":
            ctx.probe("append-failed")
        # a failed append leaves what was there; a failed extend that and a prefix of the source
        n = len(a)
        more = n - len(v)
        if more < 0 or (more and not prefix) or more > len(new or []):
            raise Violation(self.prop + ":failed", "{0} failed ({1}) and left {2} elements where there were {3}".format(shown, short(err), n, len(v)))
        if more:
            ctx.probe("extend-prefix")
        if any(x is None for x in (new or [])[:more]):
            raise Violation(self.prop + ":failed", "{0} failed ({1}) and left {2} new elements, of which some are none".format(shown, short(err), more))
        v.extend((new or [])[:more])

    def advance(self, ctx, it, k):
        """a live reader sees a prefix of what has been appended"""
        for _ in range(k):
            if it[0] is None:
                return
            v = it[2][1]
            try:
                x = S.norm(next(it[0]))
            except StopIteration:
                it[0] = None
                return
            ctx.probe("live-iterator")
            ctx.checks += 1
            if it[1] >= len(v) or not S.same(x, v[it[1]]):
                raise Violation(self.prop + ":iterator", "element {0} of a reader is {1}; the elements are {2}".format(it[1], S.show(x), S.show(v)))
            it[1] += 1

    def read(self, ctx, a, v, op, dt, step, snaps, handles):
        name = op["op"]
        fcn, model = READS[name]
        n = len(v)
        ref = numpy.array(v, dtype=dt) if n else None
        if name == "oob":
            try:
                got = fcn(a, op, n)
            except IndexError:
                return None
            raise Violation(self.prop + ":accepted", "index out of range of {0} elements gave {1}".format(n, S.show(S.norm(got))))
        if n == 0 and name in ("sum", "max", "add", "eq", "zeros", "concat", "numpy", "astype", "type"):
            return None
        if dt.kind == "U" and name in ("eq", "add", "sum", "max", "astype", "zeros"):
            return None
        if ref is not None and ref.ndim > 1 and name in ("sum", "max"):
            return None
        if name == "add":
            want = S.norm(ref + 1)
        elif name == "eq":
            want = S.norm(ref == ref)
        elif name == "sum":
            want = S.norm(ref.any() if dt.kind == "b" else ref.sum())
            if dt.kind in "ufb":
                want = None
        elif name == "max":
            want = S.norm(ref.max())
        elif name == "astype":
            want = S.norm(ref.astype("f8"))
        elif name == "zeros":
            want = S.norm(numpy.zeros_like(ref))
        elif name == "chunk":
            want = None
        else:
            try:
                want = model(v, op)
            except IndexError:
                try:
                    got = fcn(a, op, n)
                except IndexError:
                    return None
                raise Violation(self.prop + ":accepted", "{0} of {1} elements gave {2}".format(self.shown(op), n, S.show(S.norm(got))))
        try:
            res = fcn(a, op, n)
            got = S.norm(res)
        except Violation:
            raise
        except Exception as err:
            raise Violation(self.prop + ":raises", "{0} of {1}: {2}".format(self.shown(op), S.show(v), short(err)))
        ctx.checks += 1
        ctx.log(step, name, S.show(got, 100))
        if name == "chunk":
            if n and not S.same(got, v[len(v) - len(got):] if got else []):
                raise Violation(self.prop + ":value", "the last chunk is {0}, but the elements are {1}".format(S.show(got), S.show(v)))
        elif want is not None and not S.same(got, want):
            raise Violation(self.prop + ":value", "{0}: {1}, expected {2}".format(self.shown(op), S.show(got), S.show(want)))
        self.keep(ctx, name, res, got, snaps, handles, op)
        return res

    def keep(self, ctx, name, res, got, snaps, handles, op):
        if name in ("copy", "deepcopy", "shallow") and isinstance(res, awkward0.AppendableArray) and len(handles) < 5:
            ctx.probe("copied")
            handles.append([res, list(got), res.dtype])


CHECK = C08()

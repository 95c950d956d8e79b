"""C10: jagged data filled in the documented order (content, stops, starts) always read as a consistent prefix."""
import awkward0
import numpy
from dst import spec as S
from dst.c21 import CALLS, EDITS
from dst.core import Check, PlanInvalid, SimFault, Violation, short
from dst.lazy import FAULTS, OPS, gen_op

READS = dict(CALLS)
for name in EDITS + ("pandas", "df", "stored", "layout", "unpackbits", "inverse", "iterpart"):
    READS.pop(name, None)
READS.update({
    "starts": (lambda a, op, n: a.starts, None),
    "stops": (lambda a, op, n: a.stops, None),
    "startsstops": (lambda a, op, n: [len(a.starts), len(a.stops)], None),
    "size": (lambda a, op, n: [a.size, list(a.shape)], None),
    "rebuild": (lambda a, op, n: awkward0.JaggedArray.fromjagged(a), None),
    "iscompact": (lambda a, op, n: a.compact().tolist(), None),
    "colset": (lambda a, op, n: a["x"], None),
    "withcounts": (lambda a, op, n: awkward0.JaggedArray.fromcounts(a.counts, a.flatten()), None),
    "selfmask": (lambda a, op, n: a[a.counts > 1], None),
    "selfidx": (lambda a, op, n: a[numpy.argsort(a.counts, kind="stable")], None),
    "pairwise": (lambda a, op, n: a + a.copy(), None),
    "countsadd": (lambda a, op, n: a + numpy.arange(n), None),
    "jagadd": (lambda a, op, n: a + awkward0.JaggedArray.fromcounts(a.counts, numpy.arange(int(a.counts.sum()))), None),
    "addjag": (lambda a, op, n: awkward0.JaggedArray.fromcounts(a.counts, numpy.arange(int(a.counts.sum()))) * a, None),
    "concatself": (lambda a, op, n: awkward0.concatenate([a, a[:1], a]), None),
    "tojag": (lambda a, op, n: a.tojagged(numpy.arange(n)), None),
    "masktop": (lambda a, op, n: a[a.counts.astype(bool)], None),
    "first": (lambda a, op, n: a[a.counts > 0][:, 0], None),
    "last": (lambda a, op, n: a[a.counts > 0][:, -1], None),
    "rev": (lambda a, op, n: a[:, ::-1], None),
    "structure1d": (lambda a, op, n: a.structure1d(), None),
    "argsort": (lambda a, op, n: a.argsort(), None),
})
NAMES = sorted(READS)
HOT = ["all", "tolist", "len", "counts", "flatten", "index", "slice", "fancy", "mask", "offsets", "parents", "sum", "max", "add1", "cut", "colk", "colsl", "localindex", "concat", "pairs", "pad", "starts", "stops", "jagadd", "countsadd", "back", "compact", "col", "argmax", "structure1d", "zip", "cross", "isvalid", "rows", "rows3", "edges", "first", "deep"]
KEEP = ["slice", "fancy", "negfancy", "mask", "copy", "deep", "col", "cut", "flatten", "add1", "compact", "cols", "selfmask", "rev", "rebuild", "concatself", "pad", "counts"]
PLAIN = ["all", "tolist", "len", "counts", "index", "slice", "offsets", "parents", "starts", "stops", "startsstops", "size", "rows", "flatten", "isvalid", "selfmask"]
UNFILLED = ["argsort", "padnomask", "arrow", "regular", "numpy"]     # work only if there are elements
ONEDIM = ["jagadd", "addjag", "countsadd"]      # broadcasting needs one-dimensional content
UNKEPT = ["startsstops", "size", "starts", "stops", "offsets", "parents", "back", "arrow", "series", "df", "structure1d"]
BAD = ["starts-negative", "stops-negative", "starts-float", "stops-float", "starts-scalar", "content-error", "stops-object"]


class Unfit(object):
    """what can't be an element"""
    def __bool__(self):
        raise TypeError("not an element")
    __int__ = __index__ = __float__ = __complex__ = __len__ = __bool__


class Filling(object):
    """the writer: a jagged array that grows in the documented order, and what readers ought to see"""
    def __init__(self, plan, check):
        self.plan = plan
        spec = plan["full"]
        self.n = S.length(spec)
        self.full = S.build(spec)
        lead = plan["lead"]
        counts = plan["counts"]
        if not all(isinstance(c, int) and c >= 0 for c in counts) or lead < 0 or lead + sum(counts) > self.n:
            raise PlanInvalid("counts")
        self.dt = numpy.dtype(plan["idt"])
        self.offsets = numpy.zeros(len(counts) + 1, dtype=self.dt)
        self.offsets[0] = lead
        for i, c in enumerate(counts):
            self.offsets[i + 1] = self.offsets[i] + c
        self.wide = 2 if plan["wide"] else 1
        self.kc = self.ks = self.kt = 0
        self.mode = plan["mode"]
        self.reg = "'k': 'reg'" in repr(spec)
        self.armed = None
        self.startbuf = numpy.full(len(counts), 10 ** 4, dtype=self.dt)
        self.stopbuf = numpy.full(len(counts), 10 ** 4, dtype=self.dt)
        self.app = None
        if self.mode == "app":
            if spec["k"] not in ("num", "reg"):
                raise PlanInvalid("appendable")
            self.app = awkward0.AppendableArray((max(1, plan["room"]),) + self.full.shape[1:], self.full.dtype)
        self.chunks = []
        self.live = awkward0.JaggedArray(self.starts(), self.stops(), self.content(0))

    def shaped(self, x):
        return x.reshape(-1, 2) if self.wide == 2 else x

    def starts(self):
        s = self.plan["style"]
        if s == "offsets":
            return self.shaped(self.offsets[: self.kt])
        if s == "buffers":
            self.startbuf[: self.kt] = self.offsets[: self.kt]
            return self.shaped(self.startbuf[: self.kt])
        if s == "lists" and self.wide == 1:
            return [int(x) for x in self.offsets[: self.kt]] or numpy.array([], dtype=self.dt)
        return self.shaped(self.offsets[: self.kt].copy())

    def stops(self):
        s = self.plan["style"]
        if s == "offsets":
            return self.shaped(self.offsets[1 : self.ks + 1])
        if s == "buffers":
            self.stopbuf[: self.ks] = self.offsets[1 : self.ks + 1]
            return self.shaped(self.stopbuf[: self.ks])
        if s == "lists" and self.wide == 1:
            return [int(x) for x in self.offsets[1 : self.ks + 1]] or numpy.array([], dtype=self.dt)
        return self.shaped(self.offsets[1 : self.ks + 1].copy())

    def content(self, before):
        """what the writer has once it filled up to kc"""
        if self.mode == "app":
            self.app.extend(self.full[before : self.kc])
            return self.app
        if self.mode == "chunks":
            self.chunks.append(self.full[before : self.kc])
            return awkward0.ChunkedArray(list(self.chunks))
        if self.mode == "lazy":
            n = self.kc

            def load():
                if self.armed is not None:
                    exc, self.armed = self.armed, None
                    raise exc
                return self.full[:n]
            return awkward0.VirtualArray(load)
        return self.full[: self.kc]

    def step(self, what, m):
        live = self.live
        if what == "c":
            before, self.kc = self.kc, min(self.n, self.kc + max(0, m))
            c = self.content(before)
            if self.mode != "app":
                live.content = c
        elif what == "s":
            todo = m * self.wide
            while todo >= self.wide and self.ks + self.wide < len(self.offsets) and self.offsets[self.ks + self.wide] <= self.kc:
                self.ks += self.wide
                todo -= self.wide
            live.stops = self.stops()
        elif what == "t":
            self.kt = min(self.ks, self.kt + m * self.wide)
            live.starts = self.starts()
        else:
            raise PlanInvalid("step")

    def bad(self, which):
        """a step that fails; what it raises"""
        live = self.live
        try:
            if which == "starts-negative":
                live.starts = numpy.array([-1] * (self.kt + 2))
            elif which == "stops-negative":
                live.stops = numpy.array([-5] * (self.ks + 2))
            elif which == "starts-float":
                live.starts = numpy.array([0.5] * (self.kt + 2))
            elif which == "stops-float":
                live.stops = numpy.array([0.5] * (self.ks + 2))
            elif which == "starts-scalar":
                live.starts = numpy.array(3)
            elif which == "stops-object":
                live.stops = 3
            elif which == "content-error":
                if self.mode == "app":
                    self.app.append(Unfit())
                else:
                    live.content = 3
            else:
                raise PlanInvalid("bad")
        except PlanInvalid:
            raise
        except Exception as err:
            return err
        return None

    def whole(self):
        """all the data in one list"""
        n = self.n
        counts = [n, 0] if self.wide == 2 else [n]
        offsets = numpy.zeros(len(counts) + 1, dtype="i8")
        offsets[1:] = numpy.cumsum(counts)
        c = self.full
        if self.mode == "app":
            c = awkward0.AppendableArray((max(1, self.plan["room"]),) + self.full.shape[1:], self.full.dtype)
            c.extend(self.full)
        elif self.mode == "chunks":
            c = awkward0.ChunkedArray([self.full])
        elif self.mode == "lazy":
            c = awkward0.VirtualArray(lambda: self.full)
        return awkward0.JaggedArray(self.shaped(offsets[:-1]), self.shaped(offsets[1:]), c)

    def reference(self, same=False, finished=False):
        """the lists that are complete, as they would be if nothing else were there; if same, in content of the same class"""
        n = len(self.offsets) - 1 if finished else self.kt
        n -= n % self.wide
        m = int(self.offsets[n])
        c = self.full[:m]
        if same and self.mode == "app":
            c = awkward0.AppendableArray((max(1, self.plan["room"]),) + self.full.shape[1:], self.full.dtype)
            c.extend(self.full[:m])
        elif same and self.mode == "chunks" and self.chunks:
            chunks, left = [], m
            for x in self.chunks + ([self.full[self.kc :]] if finished else []):
                chunks.append(x[:left])
                left -= len(chunks[-1])
            c = awkward0.ChunkedArray(chunks)
        elif same and self.mode == "lazy":
            c = awkward0.VirtualArray(lambda: self.full[:m])
        return awkward0.JaggedArray(self.shaped(self.offsets[:n].copy()), self.shaped(self.offsets[1 : n + 1].copy()), c)


class Nested(Filling):
    """the growing array is the content of a jagged array that grows as well"""
    def __init__(self, plan, check):
        super(Nested, self).__init__(plan, check)
        counts = plan["outer"]
        if not all(isinstance(c, int) and c >= 0 for c in counts) or self.wide != 1:
            raise PlanInvalid("outer")
        self.outeroffsets = numpy.zeros(len(counts) + 1, dtype="i8")
        self.outeroffsets[1:] = numpy.cumsum(counts)
        if self.outeroffsets[-1] > len(self.offsets) - 1:
            raise PlanInvalid("outer")
        self.os = self.ot = 0
        self.inner = self.live
        self.outer = awkward0.JaggedArray(self.outeroffsets[:0], self.outeroffsets[1:1], self.inner)

    def step(self, what, m):
        if what in ("c", "s", "t"):
            self.live = self.inner
            super(Nested, self).step(what, m)
            self.live = self.outer
        elif what == "S":
            while m > 0 and self.os + 1 < len(self.outeroffsets) and self.outeroffsets[self.os + 1] <= self.kt:
                self.os += 1
                m -= 1
            self.outer.stops = self.outeroffsets[1 : self.os + 1].copy()
        elif what == "T":
            self.ot = min(self.os, self.ot + m)
            self.outer.starts = self.outeroffsets[: self.ot].copy()
        else:
            raise PlanInvalid("step")
        self.live = self.outer

    def bad(self, which):
        self.live = self.outer if which.startswith("st") and self.plan["style"] == "fresh" else self.inner
        if self.live is self.outer:
            kt, ks, self.kt, self.ks = self.kt, self.ks, self.ot, self.os
            try:
                return super(Nested, self).bad(which)
            finally:
                self.kt, self.ks = kt, ks
        try:
            return super(Nested, self).bad(which)
        finally:
            self.live = self.outer

    def whole(self):
        return awkward0.JaggedArray([0], [1], super(Nested, self).whole())

    def reference(self, same=False, finished=False):
        inner = super(Nested, self).reference(same, finished)
        n = len(self.outeroffsets) - 1 if finished else self.ot
        return awkward0.JaggedArray(self.outeroffsets[:n].copy(), self.outeroffsets[1 : n + 1].copy(), inner[: int(self.outeroffsets[n])])


class C10(Check):
    prop = "C10"
    quick_runs = 40000
    thorough_runs = 2000000
    rule = "non-trivial: the array was read while stops were ahead of starts or content ahead of stops; distinct by the sequence of writer steps and reads"
    real = ["JaggedArray", "AppendableArray, ChunkedArray and VirtualArray as growing content", "awkward0.persist (saving what is there)"]
    stub = ["the writer and its order of steps", "loaders of lazy content"]
    assumptions = ["one step of the writer (one assignment or one append) is atomic, as documented; readers run between steps"]
    required_probes = ["ahead-stops", "ahead-content", "bad-step", "kept", "iterated", "nested", "wide", "mode-app", "mode-chunks", "mode-lazy", "mode-views", "load-failed"]

    def gen(self, rng, tier):
        ser = S.Serial()
        mode = rng.pick(["views", "views", "app", "chunks", "lazy"])
        n = rng.randrange(0, 14)
        if mode == "app":
            spec = S.gen(rng, n, 0, ser, allow=("num", "reg"))
        else:
            spec = S.gen(rng, n, rng.pick([0, 0, 1, 2]), ser, allow=("num", "reg", "jag", "tab", "msk", "idx", "str"))
        lead = rng.pick([0, 0, 0, 1, 2])
        lead = min(lead, n)
        counts, left = [], n - lead
        while len(counts) < 8 and rng.chance(0.93):
            c = min(left, rng.pick([0, 0, 1, 1, 2, 3, 4]))
            counts.append(c)
            left -= c
        nested = rng.chance(0.2)
        plan = {"full": spec, "lead": lead, "counts": counts, "mode": mode, "style": rng.pick(["fresh", "offsets", "buffers", "lists"]), "wide": 0 if nested else rng.pick([0, 0, 0, 0, 1]),
                "idt": rng.pick(["i8", "i8", "i4", "i2"]), "room": rng.pick([1, 2, 3, 8]), "outer": None}
        if nested:
            outer, left = [], len(counts)
            while len(outer) < 5 and rng.chance(0.9):
                c = min(left, rng.pick([0, 1, 1, 2, 3]))
                outer.append(c)
                left -= c
            plan["outer"] = outer
        steps = []
        kinds = ["c", "s", "t"] + (["S", "T"] if nested else [])
        for _ in range(rng.randrange(4, 28)):
            r = rng.random()
            if r < 0.55:
                # mostly in rounds: the next kind after the last one
                last = [s[0] for s in steps if s[0] in kinds]
                nxt = kinds[(kinds.index(last[-1]) + 1) % len(kinds)] if last and rng.chance(0.8) else rng.pick(kinds)
                steps.append([nxt, rng.pick([1, 1, 2, 3, 5, 9])])
            elif r < 0.60:
                steps.append(["bad", rng.pick(BAD)])
            elif r < 0.66:
                name = rng.pick(KEEP)
                steps.append(["keep", gen_op(rng, [name]) if name in OPS else {"op": name, "i": rng.randrange(4), "on": 0}])
            elif r < 0.72:
                steps.append(["iter", rng.randrange(1, 4)])
            else:
                name = rng.pick(HOT) if rng.chance(0.7) else rng.pick(NAMES)
                op = gen_op(rng, [name]) if name in OPS else {"op": name, "i": rng.randrange(4)}
                op["on"] = rng.pick([0, 0, 0, 1, 2])
                if mode == "lazy" and rng.chance(0.2):
                    op["fail"] = rng.pick(["io", "key", "value", "mem"])
                steps.append(["read", op])
        plan["steps"] = steps
        return plan

    def refers(self, f, op):
        """what op gives on the complete lists; None if it isn't an operation for such data"""
        same = op["op"] not in PLAIN
        ref = self.call(op, f.reference(same))
        if ref[0] == "value" and same and (f.mode in ("app", "chunks") or f.reg or op["op"] in UNFILLED) and f.offsets[f.kt] == f.offsets[0]:
            return ("raises", None, None)       # chunked arrays without elements don't know their type
        if ref[0] == "value" and same:
            # it has to work for these data, whatever there is of them
            if len(f.full) == 0 or self.call(op, f.reference(same, True))[0] != "value" or self.call(op, f.whole())[0] != "value":
                return ("raises", None, None)
        return ref

    def call(self, op, a):
        try:
            n = 8
            try:
                n = len(a)
            except Exception:
                pass
            res = READS[op["op"]][0](a, dict(op, _eager=a), n)
            return ("value", res if isinstance(res, str) else S.norm(res), res)
        except Exception as err:
            return ("raises", short(err), err)

    def execute(self, plan, ctx):
        f = (Nested if plan.get("outer") is not None else Filling)(plan, self)
        if plan.get("outer") is not None:
            f.live = f.outer
            ctx.probe("nested")
        if f.wide == 2:
            ctx.probe("wide")
        ctx.probe("mode-" + f.mode)
        kept = []           # [(array taken from the live one, the same taken from the reference)]
        iterators = []
        for step in plan["steps"]:
            what = step[0]
            if what in ("c", "s", "t", "S", "T"):
                f.step(what, int(step[1]))
                ctx.sched(what, f.kc, f.ks, f.kt)
            elif what == "bad":
                err = f.bad(step[1])
                ctx.sched("bad", step[1], type(err).__name__)
                ctx.fault("bad-step")
                ctx.probe("bad-step")
                if err is None:
                    raise Violation("C10:accepted", "the step {0} is accepted".format(step[1]))
                self.read(ctx, f, kept, {"op": "all", "on": 0}, "after a failed step ({0})".format(step[1]))
            elif what == "keep":
                op = step[1]
                if op["op"] not in READS:
                    raise PlanInvalid("op")
                ref = self.refers(f, op)
                if ref[0] != "value":
                    continue
                got = self.call(op, f.live)
                self.compare(ctx, f, op, ref, got, "")
                if isinstance(got[2], awkward0.AwkwardArray) and got[2] is not f.live and len(kept) < 4:
                    kept.append((got[2], ref[2]))
                    ctx.probe("kept")
            elif what == "iter":
                if not iterators or step[1] == 3:
                    iterators.append([iter(f.live), 0, None, len(f.reference())])
                it = iterators[-1]
                for _ in range(int(step[1])):
                    self.advance(ctx, f, it)
            elif what == "read":
                op = step[1]
                if op["op"] not in READS:
                    raise PlanInvalid("op")
                self.read(ctx, f, kept, op, "")
            else:
                raise PlanInvalid("step")
            ahead = f.ks > f.kt
            if ahead:
                ctx.probe("ahead-stops")
            if f.kc > int(f.offsets[f.ks]):
                ctx.probe("ahead-content")
        # nothing breaks when the writer finishes
        for m, count in (("c", f.n), ("s", 99), ("t", 99)) + ((("S", 99), ("T", 99)) if plan.get("outer") is not None else ()):
            f.step(m, count)
        self.read(ctx, f, kept, {"op": "all", "on": 0}, "when all is filled")
        for it in iterators:
            while it[1] is not None:
                self.advance(ctx, f, it)
        for i in range(len(kept)):
            self.read(ctx, f, kept, {"op": "all", "on": i + 1}, "when all is filled")

    def advance(self, ctx, f, it):
        if it[1] is None:
            return
        ctx.probe("iterated")
        model = [S.norm(x) for x in f.reference()]
        try:
            x = next(it[0])
        except StopIteration:
            ctx.checks += 1
            if it[1] < it[3]:
                raise Violation("C10:iterator", "an iterator over an array that had {0} complete lists ended after {1}".format(it[3], it[1]))
            it[1] = None
            return
        except Exception as err:
            if it[3] == 0 and len(model) == 0:
                it[1] = None
                return
            raise Violation("C10:iterator", "an iterator over the growing array raises {0}".format(short(err)))
        ctx.checks += 1
        if it[1] >= len(model):
            raise Violation("C10:iterator", "an iterator gives {0}, which is not a complete list (there are {1})".format(S.show(S.norm(x)), len(model)))
        if not S.same(S.norm(x), model[it[1]]):
            raise Violation("C10:iterator", "an iterator gives {0} for list {1}, which is {2}".format(S.show(S.norm(x)), it[1], S.show(model[it[1]])))
        it[1] += 1

    def read(self, ctx, f, kept, op, when):
        k = op.get("on", 0)
        if k and k <= len(kept):
            a, r = kept[k - 1]
        else:
            a, r = f.live, None
        ref = self.call(op, r) if r is not None else self.refers(f, op)
        if f.kt < f.ks or f.kc > int(f.offsets[f.ks]):
            ctx.nontrivial = True
        if op.get("fail"):
            if op["fail"] not in FAULTS:
                raise PlanInvalid("fault")
            f.armed = FAULTS[op["fail"]]("injected")
            got = self.call(op, a)
            fired, f.armed = f.armed is None, None
            if fired:
                ctx.fault("load:" + op["fail"])
                ctx.probe("load-failed")
                ctx.sched("FAULT", op["op"])
                got = None      # whatever it gave (C02 says what it may): reading again is right
        else:
            got = None
        if op["op"] in ONEDIM and f.reg:
            return
        if ref[0] != "value" or (r is not None and (op["op"] in UNKEPT or op["op"] not in (PLAIN + ["deep", "copy"] if len(r) else ["all", "tolist", "len"]))):
            return
        if got is None:
            got = self.call(op, a)
        self.compare(ctx, f, op, ref, got, when)

    def compare(self, ctx, f, op, ref, got, when):
        ctx.checks += 1
        ctx.sched("read", op["op"], op.get("on", 0))
        ctx.log(S.show(ref[1], 100))
        told = "content {0}, stops {1}, starts {2}{3}".format(f.kc, f.ks, f.kt, (" (outer stops %d, starts %d)" % (f.os, f.ot)) if isinstance(f, Nested) else "")
        shown = dict((k, x) for k, x in op.items() if k != "_eager")
        if got[0] != "value":
            raise Violation("C10:raises", "with {0} filled {1} {2} gives {3} on the complete lists, and raises {4} on the growing array".format(told, when, shown, S.show(ref[1]), got[1]))
        if not S.same(ref[1], got[1]):
            raise Violation("C10:value", "with {0} filled {1} {2} gives {3} on the complete lists, and {4} on the growing array".format(told, when, shown, S.show(ref[1]), S.show(got[1])))


CHECK = C10()

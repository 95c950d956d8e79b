"""C21: answers never depend on left over memory; running out of memory harms nothing."""
import awkward0
import awkward0.persist
import numpy
from dst import spec as S
from dst.c01 import gen_cfg, gen_root
from dst.c19 import ALL
from dst.core import Check, PlanInvalid, Violation, short
from dst.lazy import OPS, World, gen_op
from dst.simmem import FAIL, Native, install_failing

CALLS = dict(ALL)
CALLS.pop("nbytes")


def stored(a, op, n):
    storage = {}
    awkward0.persist.serialize(a, storage, "x", delimiter="-")
    return ["%s=%s" % (k, bytes(v).hex()) for k, v in sorted(storage.items())]


def back(a, op, n):
    storage = {}
    awkward0.persist.serialize(a, storage, "x", delimiter="-")
    return awkward0.persist.deserialize(storage, "x", whitelist=[["*"]])


def setcol(a, op, n):
    a["w"] = numpy.arange(n) * 1.5
    return None


def setjag(a, op, n):
    a["w"] = a * 2 if len(a) else a
    return None


def movecol(a, op, n):
    a[["u", "w"]] = a[["x", "y"]]
    return None


def delcol(a, op, n):
    del a["x"]
    return None


def pick(a, op, n):
    return a[a.argmax()]


def arrow(a, op, n):
    return awkward0.arrow.fromarrow(awkward0.toarrow(a))


CALLS.update({
    "stored": (stored, None), "back": (back, None), "setcol": (setcol, None), "setjag": (setjag, None), "movecol": (movecol, None), "delcol": (delcol, None),
    "arrow": (arrow, None),
    "pandas": (lambda a, op, n: awkward0.topandas(a, flatten=True).values.tolist(), None),
    "series": (lambda a, op, n: awkward0.topandas(a).tolist(), None),
    "table": (lambda a, op, n: awkward0.Table(x=a, y=a), None),
    "zip": (lambda a, op, n: awkward0.JaggedArray.zip(a, a), None),
    "cross": (lambda a, op, n: a.cross(a), None),
    "crossn": (lambda a, op, n: a.cross(a, nested=True), None),
    "pairsn": (lambda a, op, n: a.pairs(nested=True), None),
    "flatten1": (lambda a, op, n: a.flatten(axis=1), None),
    "concat1": (lambda a, op, n: a.concatenate([a], axis=1), None),
    "pad5": (lambda a, op, n: a.pad(5), None),
    "padnomask": (lambda a, op, n: a.pad(3).fillna(0), None),
    "padn": (lambda a, op, n: a.pad(3, maskedwhen=False), None),
    "padtop": (lambda a, op, n: a.pad(n + 2, axis=0), None),
    "nested": (lambda a, op, n: a.flatten().flatten(), None),
    "unmasked": (lambda a, op, n: a.fillna(0).sum(), None),
    "indexed": (lambda a, op, n: a.indexed(), None),
    "unpackbits": (lambda a, op, n: a.boolmask().tolist(), None),
    "mean": (lambda a, op, n: a.mean(), None),
    "std": (lambda a, op, n: a.std(), None),
    "moment": (lambda a, op, n: a.moment(2), None),
    "logical": (lambda a, op, n: ~(a > 2), None),
    "divide": (lambda a, op, n: a / (a + 1), None),
    "divmod": (lambda a, op, n: list(numpy.divmod(a, 3)), None),
    "modf": (lambda a, op, n: list(numpy.modf(a)), None),
    "jagmask": (lambda a, op, n: a[(a > 3)], None),
    "jagindex": (lambda a, op, n: a[a.localindex[:, ::-1]], None),
    "jagnp": (lambda a, op, n: numpy.array(a.pad(2).fillna(0).regular()), None),
    "fromiter": (lambda a, op, n: awkward0.fromiter(a.tolist()), None),
    "upper": (lambda a, op, n: a.upper() if hasattr(type(a), "upper") else None, None),
    "eq": (lambda a, op, n: a == a, None),
    "strcmp": (lambda a, op, n: a == "s2", None),
    "tonumpy": (lambda a, op, n: a.tonumpy(), None),
    "dictionary": (lambda a, op, n: awkward0.IndexedArray(numpy.arange(n)[::-1], a), None),
    "bits": (lambda a, op, n: awkward0.BitMaskedArray.fromboolmask(numpy.arange(n) % 3 == 1, a, lsborder=bool(op.get("i", 0) % 2)), None),
    "bytemask": (lambda a, op, n: awkward0.MaskedArray(numpy.arange(n) % 3 == 1, a), None),
    "sparse": (lambda a, op, n: awkward0.SparseArray(n + 3, numpy.arange(n), a), None),
    "union": (lambda a, op, n: awkward0.UnionArray.fromtags(numpy.arange(2 * n) % 2, [a, a]), None),
    "chunks": (lambda a, op, n: awkward0.ChunkedArray([a, a[1:], a]), None),
    "jagged": (lambda a, op, n: awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a), None),
    "byparents": (lambda a, op, n: awkward0.JaggedArray.fromparents(numpy.arange(n) // 2, a), None),
    "byunique": (lambda a, op, n: awkward0.JaggedArray.fromuniques(numpy.arange(n) // 2, a), None),
    "bylocal": (lambda a, op, n: awkward0.JaggedArray.fromlocalindex(numpy.arange(n) % 3, a), None),
    "bitsall": (lambda a, op, n: awkward0.BitMaskedArray.fromcontent(a, maskedwhen=bool(op.get("i", 0) % 2)), None),
    "bytesall": (lambda a, op, n: awkward0.MaskedArray.fromcontent(a, maskedwhen=bool(op.get("i", 0) % 2)), None),
    "indsall": (lambda a, op, n: awkward0.IndexedMaskedArray.fromcontent(a), None),
    "gaps": (lambda a, op, n: awkward0.JaggedArray.fromparents(numpy.arange(n) // 2 * 2 + op.get("i", 0) % 3 - 1, a), None),
    "gapparents": (lambda a, op, n: awkward0.JaggedArray([0, 3], [min(n, 2), max(n, 3)], a).parents, None),
    "byoffsets": (lambda a, op, n: awkward0.JaggedArray.fromoffsets([0, n // 3, n // 3, n], a), None),
    "folding": (lambda a, op, n: awkward0.JaggedArray.fromfolding(a, 2 + op.get("i", 0) % 3), None),
    "fromjagged": (lambda a, op, n: awkward0.JaggedArray.fromjagged(a), None),
    "compactof": (lambda a, op, n: awkward0.JaggedArray([n // 2, 0], [n, n // 2], a).compact(), None),
    "unionsum": (lambda a, op, n: awkward0.UnionArray.fromtags(numpy.arange(2 * n) % 2, [a, a]).sum(), None),
    "unionmath": (lambda a, op, n: awkward0.UnionArray.fromtags(numpy.arange(2 * n) % 2, [a, a]) * 2, None),
    "unionpart": (lambda a, op, n: awkward0.UnionArray.fromtags(numpy.arange(2 * n) % 2, [a, a])[1:n + 1], None),
    "sparsecounts": (lambda a, op, n: awkward0.SparseArray(2 * n + 1, numpy.arange(n) * 2, a, default=[None, 0, []][op.get("i", 0) % 3]).counts, None),
    "sparsemask": (lambda a, op, n: awkward0.SparseArray(2 * n + 1, numpy.arange(n) * 2, a).boolmask(), None),
    "sparsepart": (lambda a, op, n: awkward0.SparseArray(2 * n + 1, numpy.arange(n) * 2, a)[numpy.arange(2 * n + 1) % 3 == 1], None),
    "sparsedense": (lambda a, op, n: awkward0.SparseArray(2 * n + 1, numpy.arange(n) * 2, a).dense, None),
    "idxsum": (lambda a, op, n: awkward0.IndexedArray(numpy.arange(2 * n) % max(n, 1), a).sum(), None),
    "idxlike": (lambda a, op, n: awkward0.IndexedArray(numpy.arange(n)[::-1], a).zeros_like(), None),
    "masksum": (lambda a, op, n: [awkward0.MaskedArray(numpy.arange(n) % 3 == 1, a).sum(), awkward0.BitMaskedArray.fromboolmask(numpy.arange(n) % 3 == 1, a).max()], None),
    "maskmath": (lambda a, op, n: awkward0.MaskedArray(numpy.arange(n) % 3 == 1, a) + a, None),
    "maskindexed": (lambda a, op, n: awkward0.BitMaskedArray.fromboolmask(numpy.arange(n) % 3 == 1, a).indexed(), None),
    "maskcounts": (lambda a, op, n: awkward0.MaskedArray(numpy.arange(n) % 3 == 1, a).counts, None),
    "chunkmath": (lambda a, op, n: awkward0.ChunkedArray([a, a[1:], a]) + awkward0.ChunkedArray([a[1:], a, a]), None),
    "chunksum": (lambda a, op, n: awkward0.ChunkedArray([a[:0], a, a[1:]]).sum(), None),
    "chunkpick": (lambda a, op, n: awkward0.ChunkedArray([a, a[1:], a])[numpy.arange(3 * n - 2, -1, -2)], None),
    "jagsum": (lambda a, op, n: [x(awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a)) for x in (lambda x: x.sum(), lambda x: x.max(), lambda x: x.argmin(), lambda x: x.any(), lambda x: x.mean())], None),
    "jagbroad": (lambda a, op, n: awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a) + numpy.arange(3), None),
    "jagtrans": (lambda a, op, n: awkward0.JaggedArray.fromcounts([1] * n, a)[:, 0], None),
    "jagcat": (lambda a, op, n: awkward0.JaggedArray.concatenate([awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a), awkward0.JaggedArray.fromcounts([0, n, 0], a)], axis=op.get("i", 0) % 2), None),
    "jagargs": (lambda a, op, n: [awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a)[x] for x in (awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a).argmax(), awkward0.JaggedArray.fromcounts([n // 2, 0, n - n // 2], a).argsort())], None),
    "tabpick": (lambda a, op, n: awkward0.Table(x=a, y=a)[::-1][["y"]], None),
    "tabsum": (lambda a, op, n: awkward0.Table(x=a, y=a).sum(), None),
    "tabcat": (lambda a, op, n: awkward0.Table.concatenate([awkward0.Table(x=a, y=a)[1:], awkward0.Table(x=a, y=a)]), None),
    "argsort": (lambda a, op, n: a.argsort(ascending=bool(op.get("i", 0) % 2)), None),
    "tuple_": (lambda a, op, n: a.flattentuple(), None),
    "kthargs": (lambda a, op, n: [a.argchoose(2), a.choose(2)], None),
    "reducing": (lambda a, op, n: [numpy.add.reduce(a), a.reduce(numpy.multiply, 1)], None),
    "var": (lambda a, op, n: a.var(), None),
    "rows3": (lambda a, op, n: [S.norm(a[i]) for i in range(-n, 0)], None),
    "edges": (lambda a, op, n: [S.norm(a[k]) for k in (0, -1, slice(-1, None), slice(None, None, -1), slice(-3, 2), slice(1, -1))], None),
    "negs": (lambda a, op, n: a[numpy.arange(-1, -n - 1, -1)] if n else None, None),
    "count_": (lambda a, op, n: a.count(), None),
    "count0": (lambda a, op, n: a.count_nonzero(), None),
    "elementwise": (lambda a, op, n: a.minby(lambda x: x) if n and False else a.argmin(), None),
})
NAMES = sorted(CALLS)
EDITS = ("setcol", "setjag", "movecol", "delcol")


class C21(Check):
    prop = "C21"
    quick_runs = 60000
    thorough_runs = 3000000
    rule = "non-trivial: an allocation was made to fail while the library was at work, or memory was handed out with different left over contents in two executions of the same plan; distinct by the sequence of operations and failures"
    real = ["awkward0.array.* (all array classes)", "awkward0.persist", "awkward0.arrow, awkward0.pandas (conversions)", "numpy on a replaced data allocator (NEP 49)"]
    stub = ["the memory allocator of numpy: contents of fresh memory and which allocation fails"]
    assumptions = ["memory runs out where the library asks numpy for a new array (numpy 1.23 itself does not survive failing allocations in its own inner loops)"]
    required_probes = ["compared", "failed", "failed-edit", "refused-both", "bytes", "derived-input"]

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = []
        for _ in range(rng.pick([1, 1, 2])):
            r = rng.random()
            if r < 0.15:
                roots.append(gen_root(rng, ser, rng.pick([0.2, 0.5])))
            elif r < 0.3:
                roots.append(S.gen(rng, rng.randrange(1, 7), 2, ser, allow=("tab", "jag", "num")))
            else:
                roots.append(S.gen(rng, rng.randrange(0, 9), rng.randrange(0, 4), ser, allow=("num", "reg", "jag", "tab", "msk", "imsk", "bmsk", "idx", "str", "chk", "uni", "spa"), virtual=rng.pick([0, 0, 0.2])))
        ops = []
        for _ in range(rng.randrange(1, 6)):
            name = rng.pick(NAMES) if rng.chance(0.85) else rng.pick(EDITS)
            op = gen_op(rng, [name]) if name in OPS else {"op": name, "i": rng.randrange(4)}
            op["on"] = rng.pick([0, 0, 1, -1, -1, -1])
            ops.append(op)
        fault = None
        if rng.chance(0.85):
            fault = {"op": rng.randrange(len(ops)), "at": int(rng.random() ** 3 * 24), "times": rng.pick([1, 1, 1, 3, 1000])}
        return {"cfg": gen_cfg(rng), "roots": roots, "ops": ops, "fills": rng.pick([[0, 1], [0, 1], [0, 2], [0, 3], [1, 3], [1, 2], [2, 3]]), "fault": fault, "ids": rng.pick(["now", "never"])}

    def pickone(self, pool, op):
        if op["on"] < 0:
            return pool[-1]
        return pool[op["on"] % len(pool)]

    def one(self, pool, op):
        """(what happened, the raw result)"""
        a = self.pickone(pool, op)
        try:
            n = 8
            try:
                n = len(a)
            except MemoryError:
                raise
            except Exception:
                pass
            res = CALLS[op["op"]][0](a, dict(op, _eager=a), n)
        except MemoryError as err:
            return ("memory", short(err)), None
        except Exception as err:
            return ("raises", type(err).__name__, short(err)), None
        return None, res

    def see(self, res):
        try:
            return ("value", res if isinstance(res, str) else S.norm(res))
        except MemoryError:
            raise
        except Exception as err:
            return ("unreadable", type(err).__name__, short(err))

    def world(self, plan, ctx, native, fill, fault=None):
        """outcomes of the operations, and of reading everything at the end"""
        native.fill(fill)
        w = World(ctx, dict(plan["cfg"], evict=[]))
        pool = [S.build(sp, w) for sp in plan["roots"]]
        out = []
        for k, op in enumerate(plan["ops"]):
            if op["op"] not in CALLS:
                raise PlanInvalid("op")
            ctx.sched("op", op["op"], op["on"], type(self.pickone(pool, op)).__name__)
            if fault is not None and fault["op"] == k:
                before = [self.see(a) for a in pool] if plan.get("look", 1) else None
                FAIL.start(max(0, fault["at"]), max(1, fault["times"]))
                try:
                    what, res = self.one(pool, op)
                finally:
                    _, failed = FAIL.stop()
                if failed:
                    ctx.fault("allocation")
                    ctx.probe("failed")
                    ctx.sched("fail", op["op"], fault["at"])
                    if what is None:
                        # the library did without it: then with the right answer
                        seen = self.see(res)
                        ctx.probe("did-without")
                        out.append(("instead", seen, res))
                    else:
                        if what[0] != "memory":
                            out.append(("wrong", what, None))
                        if op["op"] in EDITS:
                            ctx.probe("failed-edit")
                        if before is not None:
                            after = [self.see(a) for a in pool]
                            for i, (x, y) in enumerate(zip(before, after)):
                                if not self.same(x, y):
                                    out.append(("harm", (i, x, y), None))
                        what, res = self.one(pool, op)
            else:
                what, res = self.one(pool, op)
            if what is None:
                seen = self.see(res)
                if isinstance(res, (awkward0.AwkwardArray, numpy.ndarray)):
                    pool.append(res)
                    if op["on"] < 0:
                        ctx.probe("derived-input")
            else:
                seen = what
            out.append(("op", k, seen))
        out.append(("end", None, [self.see(a) for a in pool]))
        return out

    def same(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == "value":
            return S.same(x[1], y[1])
        return x[1] == y[1]

    def execute(self, plan, ctx):
        quiet = lambda: type(ctx)(False)
        a, b = plan["fills"]
        if a == b or not all(isinstance(x, int) for x in (a, b)):
            raise PlanInvalid("fills")
        with Native() as native:
            first = self.world(plan, quiet(), native, a)
            second = self.world(plan, ctx, native, b)
            ctx.nontrivial = True
            self.compare(plan, ctx, first, second, "C21:leftover", "with memory that held {0}".format(self.named(a)), "with memory that held {0}".format(self.named(b)))
            fault = plan.get("fault")
            if fault:
                if not isinstance(fault.get("op"), int) or not isinstance(fault.get("at"), int) or not isinstance(fault.get("times"), int):
                    raise PlanInvalid("fault")
                third = self.world(plan, ctx, native, a, fault)
                op = plan["ops"][fault["op"] % len(plan["ops"])]
                clean = []
                for e in third:
                    ctx.checks += 1
                    if e[0] == "wrong":
                        ref = [x for x in first if x[0] == "op" and x[1] == fault["op"]][0]
                        if ref[2][0] != "value":
                            continue        # refused anyway
                        raise Violation("C21:error", "{0}: allocation {1} failed, and instead of MemoryError came {2}".format(self.shown(op), fault["at"], e[1][2]))
                    if e[0] == "harm":
                        i, x, y = e[1]
                        raise Violation("C21:harm", "{0} ran out of memory; array {1} was {2} and is now {3}".format(self.shown(op), i, S.show(x[1:]), S.show(y[1:])))
                    if e[0] == "instead":
                        ref = [x for x in first if x[0] == "op" and x[1] == fault["op"]][0]
                        if not self.same(ref[2], e[1]):
                            raise Violation("C21:wrong", "{0} gives {1}; when allocation {2} fails it gives {3} and raises nothing".format(self.shown(op), S.show(ref[2][1:]), fault["at"], S.show(e[1][1:])))
                        continue
                    clean.append(e)
                self.compare(plan, ctx, first, clean, "C21:after", "when all memory is there", "after allocation {0} of operation {1} had failed and it was done again".format(fault["at"], fault["op"]))

    def named(self, fill):
        return ["zeros", "ones in all bits", "ones", "noise"][fill % 4]

    def compare(self, plan, ctx, first, second, vclass, here, there):
        for x, y in zip(first, second):
            if x[0] == "op":
                op = plan["ops"][x[1]]
                ctx.checks += 1
                ctx.log(op["op"], x[2][0], S.show(x[2][1], 100))
                if x[2][0] != "value" and y[2][0] == x[2][0]:
                    ctx.probe("refused-both")
                if op["op"] == "stored" and x[2][0] == "value":
                    ctx.probe("bytes")
                ctx.probe("compared")
                if vclass == "C21:after" and x[2][0] != "value" and not self.same(x[2], y[2]):
                    return          # refused at first: looking at the arrays in between may have settled that they are valid
                if not self.same(x[2], y[2]):
                    raise Violation(vclass, "{0} gives {1} {2}, and {3} {4}".format(self.shown(op), self.told(x[2]), here, self.told(y[2]), there))
            else:
                for i, (p, q) in enumerate(zip(x[2], y[2])):
                    if p[0] != "value" and vclass == "C21:after":
                        continue        # looking at it first may settle that it is valid
                    ctx.checks += 1
                    if not self.same(p, q):
                        raise Violation(vclass, "array {0} reads as {1} {2}, and as {3} {4}".format(i, self.told(p), here, self.told(q), there))

    def told(self, seen):
        return S.show(seen[1]) if seen[0] == "value" else "an error (%s)" % (seen[-1],)

    def shown(self, op):
        return dict((k, x) for k, x in op.items() if k in ("op", "i", "c", "lo", "hi", "st", "idx", "bits", "on"))

    def worker_init(self):
        Native.load()
        install_failing()


CHECK = C21()

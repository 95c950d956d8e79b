"""C22: reading and deriving leave no trace."""
import re
import sys

import awkward0
import numpy
from dst import spec as S
from dst import threads
from dst.c01 import gen_cfg, gen_root
from dst.c21 import CALLS as MORE
from dst.c21 import EDITS
from dst.core import Check, PlanInvalid, SimFault, SimInterrupt, Violation, isinjected, short
from dst.lazy import OPS, World, gen_op
from dst.simmem import FAIL, install_failing

mon = sys.monitoring


# --------------------------------------------------------------------------- what the caller gave

class Given(object):
    """the arrays and lists that were handed to the library, and what was in them"""
    SIZE = 1024

    def __init__(self, arena, readonly):
        self.arena = arena          # arrays are views of larger ones, side by side
        self.readonly = readonly
        self.arenas = {}
        self.arrays = []            # (array, bytes)
        self.lists = []
        self.named = {}
        self.fresh = []

    def array(self, *args, **kwargs):
        out = numpy.array(*args, **kwargs)
        if out.dtype.hasobject:
            return out
        if self.arena and out.size and out.ndim == 1:
            base, used = self.arenas.get(out.dtype.str, (None, 0))
            if base is None or used + len(out) > len(base):
                if len(out) > self.SIZE:
                    base, used = None, 0
                else:
                    base, used = numpy.zeros(self.SIZE, dtype=out.dtype), 0
                    base.view("u1")[:] = 7
                    self.fresh.append(base)
            if base is not None:
                view = base[used:used + len(out)]
                view[...] = out
                self.arenas[out.dtype.str] = (base, used + len(out))
                out = view
        elif out.size:
            self.fresh.append(out)
        if out.size:
            self.remember(out)
        return out

    def remember(self, out):
        self.arrays.append((out, out.tobytes()))
        if self.readonly:
            out.flags.writeable = False

    def list(self, x):
        self.lists.append((x, list(x)))
        return x

    def once(self, name, make):
        """the same array each time that it is asked for"""
        if name not in self.named:
            self.named[name] = make()
        return self.named[name]

    def changed(self):
        for x, y in self.arrays:
            if x.tobytes() != y:
                return x, numpy.frombuffer(y, dtype=x.dtype).reshape(x.shape)
        for x, y in self.lists:
            if len(x) != len(y) or (any(x[k] is not y[k] for k in y if k in x) or set(x) != set(y) if isinstance(x, dict) else any(p is not q for p, q in zip(x, y))):
                return x, y
        return None


class Numpy(object):
    """numpy as the builders of arrays see it: what they make is what the caller gave"""
    given = None

    def __getattr__(self, name):
        return getattr(numpy, name)

    def array(self, *args, **kwargs):
        if self.given is None:
            return numpy.array(*args, **kwargs)
        return self.given.array(*args, **kwargs)


NUMPY = Numpy()


# --------------------------------------------------------------------------- operations with arguments of the caller

def ints(g, op, n, lo=0):
    idx = op.get("idx", [])
    sign = op.get("i", 0)
    return g.once("idx%s%d%d" % (idx, sign, n), lambda: g.array([(i % n) - (n if (sign >> (k % 3)) & 1 else 0) for k, i in enumerate(idx)] if n else [], dtype=op.get("dt", "i8")))


def bools(g, op, n):
    bits = op.get("bits", 0)
    return g.once("mask%d-%d" % (bits, n), lambda: g.array([bool((bits >> i) & 1) for i in range(n)], dtype=bool))


def floats(g, op, n):
    bits = op.get("bits", 0)
    return g.once("floats%d-%d" % (bits, n), lambda: g.array([float("nan") if (bits >> i) & 1 else i + 0.25 for i in range(n)], dtype="f8"))


def counts(g, op, n):
    idx = op.get("idx") or [2]
    out, left, i = [], n, 0
    while left > 0:
        out.append(min(left, idx[i % len(idx)] % 4 + (1 if i >= len(idx) else 0)))
        left -= out[-1]
        i += 1
    return out


def jagged(g, op, a, what):
    """a jagged array of indexes (or of booleans) that fits"""
    sizes = [int(x) for x in a.counts]
    bits, idx = op.get("bits", 0), op.get("idx", [])
    flat, lens, k = [], [], 0
    for i, c in enumerate(sizes):
        if what == "mask":
            row = [bool((bits >> (k + j)) & 1) for j in range(c)]
        else:
            row = [(x % c) - (c if (bits >> ((i + j) % 8)) & 1 else 0) for j, x in enumerate(idx[:(i + op.get("i", 0)) % 4])] if c else []
        k += c
        lens.append(len(row))
        flat.extend(row)
    offsets = [0]
    for m in lens:
        offsets.append(offsets[-1] + m)
    return awkward0.JaggedArray.fromoffsets(g.array(offsets, dtype="i8"), g.array(flat, dtype=bool if what == "mask" else "i8"))


def parents(g, op, n):
    idx = op.get("idx") or [0]
    return g.array(sorted((idx[i % len(idx)] % 5) - (1 if op.get("i", 0) % 2 else 0) for i in range(n)), dtype="i8")


def structured(g, op, a, n):
    rec = numpy.zeros(n, dtype=[("x", "i8"), ("y", "f8")])
    rec["x"] = numpy.arange(n)
    rec["y"] = numpy.nan
    g.arrays.append((rec, rec.tobytes()))
    return awkward0.Table.fromrec(rec)


def starts(g, op, n):
    c = counts(g, op, n)
    s, out = 0, []
    for x in c:
        out.append((s, s + x))
        s += x
    if op.get("i", 0) % 2:
        out.reverse()
    return g.array([x for x, _ in out], dtype=op.get("dt", "i8")), g.array([y for _, y in out], dtype=op.get("dt", "i8"))


def offsets(g, op, n):
    c = counts(g, op, n)
    out = [0]
    for x in c:
        out.append(out[-1] + x)
    return g.array(out, dtype=op.get("dt", "i8"))


def nested(x):
    """what Python says of a list, with nothing shared"""
    return [nested(y) if isinstance(y, list) else (dict((k, nested(v) if isinstance(v, list) else v) for k, v in y.items()) if isinstance(y, dict) else y) for y in x] if isinstance(x, list) else x


def iterlists(g, op, a, n):
    x = a.tolist()
    y = nested(x)
    out = awkward0.fromiter(x)
    if not S.same(S.norm(x), S.norm(y)):
        raise Violation("C22:list", "fromiter changed the lists that it was given: {0} is now {1}".format(S.show(y), S.show(x)))
    return out


ARGS = {
    "a[ints]": lambda a, op, n, g, b: a[ints(g, op, n)],
    "a[bools]": lambda a, op, n, g, b: a[bools(g, op, n)],
    "a[list]": lambda a, op, n, g, b: a[g.list(ints(g, op, n).tolist())] if op.get("idx") else None,
    "a[names]": lambda a, op, n, g, b: a[g.list(["y", "x"])],
    "a[:, ints]": lambda a, op, n, g, b: a[:, g.once("two%d" % op.get("i", 0), lambda: g.array([0, -1] if op.get("i", 0) else [0], dtype="i8"))],
    "a[ints, i]": lambda a, op, n, g, b: a[ints(g, op, n), op.get("i", 0) % 2],
    "a[bools, :2]": lambda a, op, n, g, b: a[bools(g, op, n), :2],
    "a[jagged ints]": lambda a, op, n, g, b: a[jagged(g, op, a, "index")],
    "a[jagged bools]": lambda a, op, n, g, b: a[jagged(g, op, a, "mask")],
    "a + floats": lambda a, op, n, g, b: a + floats(g, op, n),
    "floats * a": lambda a, op, n, g, b: floats(g, op, n) * a,
    "a < floats": lambda a, op, n, g, b: a < floats(g, op, n),
    "maximum": lambda a, op, n, g, b: numpy.maximum(a, floats(g, op, n)),
    "a + b": lambda a, op, n, g, b: a + b,
    "a[b]": lambda a, op, n, g, b: a[b],
    "a == b": lambda a, op, n, g, b: a == b,
    "cross b": lambda a, op, n, g, b: a.cross(b),
    "zip b": lambda a, op, n, g, b: awkward0.JaggedArray.zip(x=a, y=b),
    "concatenate b": lambda a, op, n, g, b: awkward0.concatenate(g.list([a, b])),
    "a.concatenate b": lambda a, op, n, g, b: a.concatenate(g.list([b, a])),
    "concatenate b axis 1": lambda a, op, n, g, b: a.concatenate(g.list([b, a]), axis=1),
    "Table": lambda a, op, n, g, b: awkward0.Table(x=a, y=b),
    "Table.named": lambda a, op, n, g, b: awkward0.Table.named("t", a, b),
    "Table.fromrec": lambda a, op, n, g, b: structured(g, op, a, n),
    "ChunkedArray": lambda a, op, n, g, b: awkward0.ChunkedArray(g.list([a, b[:0] if op.get("i", 0) % 2 else a, a])),
    "ChunkedArray of b": lambda a, op, n, g, b: awkward0.ChunkedArray(g.list([a, b])),
    "ChunkedArray sizes": lambda a, op, n, g, b: awkward0.ChunkedArray(g.list([a, a]), g.list([len(a), len(a)])),
    "fromcounts": lambda a, op, n, g, b: awkward0.JaggedArray.fromcounts(g.array(counts(g, op, n), dtype=op.get("dt", "i8")), a),
    "fromoffsets": lambda a, op, n, g, b: awkward0.JaggedArray.fromoffsets(offsets(g, op, n), a),
    "fromparents": lambda a, op, n, g, b: awkward0.JaggedArray.fromparents(parents(g, op, n), a),
    "fromuniques": lambda a, op, n, g, b: awkward0.JaggedArray.fromuniques(parents(g, op, n), a),
    "JaggedArray": lambda a, op, n, g, b: awkward0.JaggedArray(*(starts(g, op, n) + (a,))),
    "IndexedArray": lambda a, op, n, g, b: awkward0.IndexedArray(ints(g, dict(op, i=0), n), a),
    "SparseArray": lambda a, op, n, g, b: awkward0.SparseArray(2 * n + 1, g.array([2 * i for i in range(n)], dtype="i8"), a),
    "MaskedArray": lambda a, op, n, g, b: awkward0.MaskedArray(bools(g, op, n), a, maskedwhen=bool(op.get("i", 0) % 2)),
    "BitMaskedArray": lambda a, op, n, g, b: awkward0.BitMaskedArray(g.array([op.get("bits", 0) % 256] * ((n + 7) // 8), dtype="u1"), a, maskedwhen=bool(op.get("i", 0) % 2), lsborder=bool(op.get("i", 0) // 2 % 2)),
    "fromboolmask": lambda a, op, n, g, b: awkward0.BitMaskedArray.fromboolmask(bools(g, op, n), a, maskedwhen=bool(op.get("i", 0) % 2)),
    "IndexedMaskedArray": lambda a, op, n, g, b: awkward0.IndexedMaskedArray(g.array([i if (op.get("bits", 0) >> i) & 1 else -1 for i in range(n)], dtype="i8"), a),
    "UnionArray.fromtags": lambda a, op, n, g, b: awkward0.UnionArray.fromtags(g.array([(op.get("bits", 0) >> i) & 1 for i in range(min(n, len(b)))], dtype="u1"), g.list([a, b])),
    "UnionArray": lambda a, op, n, g, b: awkward0.UnionArray(g.array([(op.get("bits", 0) >> i) & 1 for i in range(min(n, len(b)))], dtype="u1"), g.array(list(range(min(n, len(b)))), dtype="i8"), g.list([a, b])),
    "StringArray": lambda a, op, n, g, b: awkward0.StringArray(*(starts(g, op, n) + (g.array([65 + i for i in range(n)], dtype="u1"),)), encoding="utf-8"),
    "fromiter": lambda a, op, n, g, b: iterlists(g, op, a, n),
    "isin": lambda a, op, n, g, b: [x in a.tolist() for x in b.tolist()],
    "where jagged": lambda a, op, n, g, b: a[a > 2][:, :1],
    "inv": lambda a, op, n, g, b: awkward0.IndexedArray.invert(g.array([(i * 3 + 1) % n for i in range(n)] if n % 3 else list(range(n))[::-1], dtype="i8")),
    "numpy sort": lambda a, op, n, g, b: numpy.sort(numpy.array(a)),
    "argsort": lambda a, op, n, g, b: a.argsort(ascending=bool(op.get("i", 0) % 2)),
    "pad fill": lambda a, op, n, g, b: a.pad(3).fillna(op.get("i", 0)),
    "structure1d": lambda a, op, n, g, b: a.structure1d(),
    "nbytes": lambda a, op, n, g, b: (a.nbytes, None)[1],
    "deepcopy": lambda a, op, n, g, b: a.deepcopy(),
    "iteration": lambda a, op, n, g, b: [S.norm(x) for x in a],
    "sums": lambda a, op, n, g, b: [S.norm(getattr(a, m)()) for m in ("sum", "max", "min", "prod", "any", "all", "count", "count_nonzero")],
    "moments": lambda a, op, n, g, b: [S.norm(getattr(a, m)()) for m in ("mean", "var", "std")],
    "reduce sum": lambda a, op, n, g, b: numpy.add.reduce(a),
    "nan_to_num": lambda a, op, n, g, b: awkward0.AwkwardArray.fillna(a, 5) if not isinstance(a, numpy.ndarray) else None,
    "isnan": lambda a, op, n, g, b: numpy.isnan(a),
    "regular sum": lambda a, op, n, g, b: a.sum(regularaxis=1),
    "cumsum": lambda a, op, n, g, b: numpy.cumsum(a.flatten()),
    "flattentuple": lambda a, op, n, g, b: a.flattentuple(),
    "tuples": lambda a, op, n, g, b: awkward0.Table.fromiter([(1, 2.5), (3, 4.5)]),
    "mask out": lambda a, op, n, g, b: a.flatten()[a.flatten() > 3],
    "compact": lambda a, op, n, g, b: a.compact(),
    "parents": lambda a, op, n, g, b: a.parents,
    "index": lambda a, op, n, g, b: a.index,
    "offsets": lambda a, op, n, g, b: (len(a), a.offsets)[1] if isinstance(a, awkward0.JaggedArray) else None,
    "localindex": lambda a, op, n, g, b: a.localindex,
    "starts": lambda a, op, n, g, b: [S.norm(a.starts), S.norm(a.stops)],
    "dense": lambda a, op, n, g, b: a.dense,
    "str": lambda a, op, n, g, b: re.sub(" at 0x[0-9a-f]+", "", str(a)),
    "layout": lambda a, op, n, g, b: None if a.layout is None else True,
    "simplify": lambda a, op, n, g, b: a.simplify(),
    "isunmasked": lambda a, op, n, g, b: S.norm(a.isunmasked),
    "copied": lambda a, op, n, g, b: a.copy(content=a.content),
    "empty_like": lambda a, op, n, g, b: len(a.empty_like()),
    "tojagged": lambda a, op, n, g, b: a.tojagged(b),
    "broadcast": lambda a, op, n, g, b: a + b.flatten()[:n] if isinstance(b, awkward0.JaggedArray) else a + b,
}
J, ST = awkward0.JaggedArray, awkward0.StringArray
ARGS.update({
    "fromlocalindex": lambda a, op, n, g, b: J.fromlocalindex(g.array([i for c in counts(g, op, n) for i in range(c)], dtype="i8"), a),
    "fromregular": lambda a, op, n, g, b: J.fromregular(g.array([[i, i + 1] for i in range(n)] or [[0, 0]], dtype="f8")),
    "fromfolding": lambda a, op, n, g, b: J.fromfolding(a, op.get("i", 0) % 4 + 1),
    "fromview": lambda a, op, n, g, b: awkward0.Table.fromview(ints(g, op, n), a) if isinstance(a, awkward0.Table) else None,
    "frompairs": lambda a, op, n, g, b: awkward0.Table.frompairs(g.list([("x", a), ("y", b)])),
    "Table dict": lambda a, op, n, g, b: awkward0.Table(given_dict(g, {"x": a, "y": b})),
    "named dict": lambda a, op, n, g, b: awkward0.Table.named("point", given_dict(g, {"x": a, "y": b})),
    "zip dict": lambda a, op, n, g, b: J.zip(given_dict(g, {"x": a, "y": b})),
    "bit2bool": lambda a, op, n, g, b: awkward0.BitMaskedArray.bit2bool(g.array([op.get("bits", 0), 5], dtype="u1"), lsborder=bool(op.get("i", 0) % 2)),
    "bool2bit": lambda a, op, n, g, b: awkward0.BitMaskedArray.bool2bit(bools(g, op, n), lsborder=bool(op.get("i", 0) % 2)),
    "parents2startsstops": lambda a, op, n, g, b: list(J.parents2startsstops(parents(g, op, n))),
    "uniques2offsetsparents": lambda a, op, n, g, b: list(J.uniques2offsetsparents(parents(g, op, n))),
    "startsstops2parents": lambda a, op, n, g, b: J.startsstops2parents(*starts(g, dict(op, i=0), n)),
    "offsets2parents": lambda a, op, n, g, b: J.offsets2parents(offsets(g, op, n)),
    "counts2offsets": lambda a, op, n, g, b: J.counts2offsets(g.array(counts(g, op, n), dtype="i8")),
    "strings fromnumpy": lambda a, op, n, g, b: ST.fromnumpy(g.array(["a" * (i % 4) for i in range(n)] or ["b"], dtype="U4" if op.get("i", 0) % 2 else "S4")),
    "strings fromoffsets": lambda a, op, n, g, b: ST.fromoffsets(offsets(g, op, n), g.array([97 + i for i in range(n)], dtype="u1")),
    "strings fromcounts": lambda a, op, n, g, b: ST.fromcounts(g.array(counts(g, op, n), dtype="i8"), g.array([97 + i for i in range(n)], dtype="u1")),
    "strings fromparents": lambda a, op, n, g, b: ST.fromparents(parents(g, op, n), g.array([97 + i for i in range(n)], dtype="u1")),
    "strings fromjagged": lambda a, op, n, g, b: ST.fromjagged(J.fromoffsets(offsets(g, op, n), g.array([97 + i for i in range(n)], dtype="u1"))),
    "fromjagged": lambda a, op, n, g, b: J.fromjagged(a),
    "masked fromcontent": lambda a, op, n, g, b: awkward0.MaskedArray.fromcontent(a),
    "bitmasked fromcontent": lambda a, op, n, g, b: awkward0.BitMaskedArray.fromcontent(a),
    "indexedmasked fromcontent": lambda a, op, n, g, b: awkward0.IndexedMaskedArray.fromcontent(a),
    "ObjectArray": lambda a, op, n, g, b: awkward0.ObjectArray(a, made, g.list([3])[0]),
    "from storage": lambda a, op, n, g, b: stored(a, g, op),
    "upper": lambda a, op, n, g, b: len(a.upper()),
    "strings + floats": lambda a, op, n, g, b: a == g.array(["s%d" % i for i in range(n)], dtype="U3"),
    "ma": lambda a, op, n, g, b: awkward0.Table(x=numpy.ma.MaskedArray(floats(g, op, n), bools(g, op, n))).fillna(3),
    "fromiter arrays": lambda a, op, n, g, b: awkward0.fromiter(g.list([floats(g, op, n).tolist(), [1.5]])),
    "append": lambda a, op, n, g, b: awkward0.AppendableArray.empty(lambda: numpy.empty(3)).tolist(),
    "numpy.where": lambda a, op, n, g, b: numpy.where(numpy.array(a) > 2),
    "ufunc.at": lambda a, op, n, g, b: numpy.add.outer(a, floats(g, op, 2)),
    "sum of masked": lambda a, op, n, g, b: awkward0.MaskedArray(bools(g, op, n), a).sum(),
    "flatten of masked": lambda a, op, n, g, b: awkward0.MaskedArray(bools(g, op, n), a).flatten(),
    "fill masked": lambda a, op, n, g, b: awkward0.MaskedArray(bools(g, op, n), a).fillna(9),
    "fill indexed masked": lambda a, op, n, g, b: awkward0.IndexedMaskedArray(g.array([-1 - i if i % 2 else i for i in range(n)], dtype="i8"), a, maskedwhen=-1).fillna(9),
    "jagged of floats": lambda a, op, n, g, b: [S.norm(getattr(J.fromcounts(g.array(counts(g, op, n), dtype="i8"), floats(g, op, n)), m)()) for m in ("sum", "prod", "min", "max", "any", "all", "argmin", "argmax", "mean", "std")],
    "jagged gaps": lambda a, op, n, g, b: [S.norm(x) for x in (lambda j: (j.compact(), j.flatten(), j.offsets, j.parents, j.sum(), j * 2, j.localindex, j.pad(2)))(J(*(starts(g, op, n) + (floats(g, op, n + 2),))))],
    "padded string": lambda a, op, n, g, b: [S.norm(a.pad(n + 3)), S.norm(a)],
    "deepcopied": lambda a, op, n, g, b: [S.norm(a.deepcopy()), S.norm(a)],
    "a[rows, columns]": lambda a, op, n, g, b: a[g.array([i for i, c in enumerate(a.counts.tolist()) if c], dtype="i8"), g.array([(op.get("bits", 0) >> i) % c - (c if i % 2 else 0) for i, c in enumerate(a.counts.tolist()) if c], dtype=op.get("dt", "i8"))],
    "a[bools, columns]": lambda a, op, n, g, b: a[g.array([bool(c) for c in a.counts.tolist()], dtype=bool), g.array([(op.get("bits", 0) >> i) % c - (c if i % 2 else 0) for i, c in enumerate(a.counts.tolist()) if c], dtype="i8")],
    "a[:, bools]": lambda a, op, n, g, b: a[:, g.array([bool((op.get("bits", 0) >> i) & 1) for i in range(int(a.counts[0]))], dtype=bool)],
    "a[:, :, ints]": lambda a, op, n, g, b: a[:, :, g.array([0, -1], dtype="i8")],
    "concatenate indexed": lambda a, op, n, g, b: (lambda x: x.concatenate([x, x]))(awkward0.IndexedArray(ints(g, dict(op, i=0), n), a)),
    "concatenate indexed masked": lambda a, op, n, g, b: (lambda x: x.concatenate(g.list([x, x])))(awkward0.IndexedMaskedArray(g.array([-1 if (op.get("bits", 0) >> i) & 1 else i for i in range(n)], dtype="i8"), a)),
    "concatenate objects": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: x.concatenate(g.list([x, x[::-1]]))))(awkward0.ObjectArray(a, made)),
    "concatenate pairs": lambda a, op, n, g, b: unharmed([a, b], lambda: a.concatenate(g.list([b]))),
    "concatenate of itself": lambda a, op, n, g, b: unharmed([a], lambda: type(a).concatenate(g.list([a, a[1:]]))),
    "reductions of table": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x.sum(), x.max(), x.any()]))(J.fromcounts(g.array(counts(g, op, n), dtype="i8"), awkward0.Table(x=a, y=a))),
    "reductions of union": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x.sum(), x.max(), x.any()]))(awkward0.UnionArray.fromtags(g.array([i % 2 for i in range(2 * n)], dtype="u1"), [a, a])),
    "views of table": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x[1:], x[::-1][:2], x[["x"]][1:], x.copy(), x[numpy.arange(n) % 2 == 0].deepcopy()]))(awkward0.Table(x=a, y=a)),
    "views of indexed": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x[1:], x + 1, x.copy(), x.flatten(), x.deepcopy()]))(awkward0.IndexedArray(g.array(list(range(n))[::-1], dtype="i8"), a)),
    "views of masked": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x[1:], x + 1, x.sum(), x.fillna(3), x.flatten(), x.indexed()]))(awkward0.MaskedArray(bools(g, op, n), a)),
    "views of jagged": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x[1:], x + 1, x.sum(), x[::-1].compact(), x.pad(2), x[:, :1], x.concatenate([x], axis=1)]))(J(*(starts(g, op, n) + (a,)))),
    "views of chunks": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x[1:], x + 1, x.sum(), x[::2], x.concatenate([x])]))(awkward0.ChunkedArray(g.list([a, a[1:]]))),
    "views of sparse": lambda a, op, n, g, b: (lambda x: unharmed([x], lambda: [x.boolmask(), x.dense, x + 1, x.sum()]))(awkward0.SparseArray(2 * n + 1, g.array([2 * i for i in range(n)], dtype="i8"), a)),
    "concatenate jagged": lambda a, op, n, g, b: (lambda x: x.concatenate(g.list([x, x])))(J(*(starts(g, op, n) + (a,)))),
    "concatenate unions": lambda a, op, n, g, b: (lambda x: x.concatenate(g.list([x, x[::-1]])))(awkward0.UnionArray(g.array([0] * n, dtype="u1"), g.array(list(range(n)), dtype="i8"), g.list([a, b]))),
    "reduce gaps": lambda a, op, n, g, b: J(*(starts(g, op, n) + (a,))).max(),
    "twice": lambda a, op, n, g, b: [S.norm(a), S.norm(a)],
    # arrays that are not what they should be: refused whenever they are used
    "bad index": lambda a, op, n, g, b: awkward0.IndexedArray(g.array([0, n + 1 + op.get("i", 0)], dtype="i8"), a),
    "bad sparse": lambda a, op, n, g, b: awkward0.SparseArray(2 * n + 5, g.array([2 * i for i in range(n + 1)], dtype="i8"), a),
    "bad mask": lambda a, op, n, g, b: awkward0.MaskedArray(g.array([False] * (n + 1), dtype=bool), a),
    "bad indexed mask": lambda a, op, n, g, b: awkward0.IndexedMaskedArray(g.array([0, -2 if op.get("i", 0) % 2 else n + 1, -1], dtype="i8"), a),
    "bad tags": lambda a, op, n, g, b: awkward0.UnionArray(g.array([0, 1, 0], dtype="u1"), g.array([0, 0, 0], dtype="i8"), g.list([a])),
    "bad union index": lambda a, op, n, g, b: awkward0.UnionArray(g.array([0, 1, 0], dtype="u1"), g.array([0, 0, n], dtype="i8"), g.list([a, b])),
    "bad stops": lambda a, op, n, g, b: J(g.array([0, 1], dtype="i8"), g.array([1, n + 1], dtype="i8"), a),
    "bad starts": lambda a, op, n, g, b: J(g.array([0, 1 + n], dtype="i8"), g.array([n, n], dtype="i8"), a),
    "bad string": lambda a, op, n, g, b: ST(g.array([0, 1], dtype="i8"), g.array([1, 9], dtype="i8"), g.array([97, 98, 99], dtype="u1"), encoding="utf-8"),
    "bad bits": lambda a, op, n, g, b: awkward0.BitMaskedArray(g.array([1], dtype="u1"), J.fromcounts(g.array([n], dtype="i8"), a)[:0]),
})


def unharmed(xs, f):
    """what is derived from arrays, which read as before"""
    before = [S.norm(x) for x in xs]
    res = S.norm(f())
    for x, y in zip(xs, before):
        z = S.norm(x)
        if not S.same(z, y):
            raise Violation("C22:changed", "what reads as {0} reads as {1} after something was derived from it".format(S.show(y), S.show(z)))
    return res


class Made(object):
    def __init__(self, x, y):
        self.x = x


def made(x, y=0):
    return S.norm(x)


def given_dict(g, d):
    g.lists.append((d, dict(d)))
    return d


def stored(a, g, op):
    storage = {}
    awkward0.persist.serialize(a, storage, "x", delimiter="-")
    before = dict((k, bytes(v)) for k, v in storage.items())
    out = awkward0.persist.deserialize(storage, "x", whitelist=[["*"]])
    if op.get("i", 0) % 2:
        out.tolist()
    if before != dict((k, bytes(v)) for k, v in storage.items()):
        raise Violation("C22:storage", "reading changed what is stored")
    return out


PLAIN = sorted(set(OPS) | set(MORE) - set(EDITS))
NAMES = sorted(ARGS)
VALID = ("valid", "isvalid")
BAD = sorted(x for x in ARGS if x.startswith("bad "))
MOSTLY = ["sum", "max", "min", "prod", "any", "all_", "argmax", "argmin", "flatten", "pad", "fillna", "count_", "mean", "concat", "astype", "add1", "cut", "index", "tolist", "slice", "counts", "regular", "numpy"]


# --------------------------------------------------------------------------- cancelled at any point

class Cancel(object):
    """the k-th line (or instruction) of awkward0 does not happen: the user pressed Ctrl-C"""
    def __init__(self, at, instr, narrow):
        self.left = at
        self.instr = instr
        self.narrow = narrow        # only next to where something that stays is changed
        self.where = None
        self.count = 0

    def hit(self, code, where):
        if not code.co_filename.startswith(threads.ROOT):
            return mon.DISABLE
        if self.where is None and code.co_name != "__del__" and (not self.narrow or where in threads.stores(code)[0 if self.instr else 1]):
            self.count += 1
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.where = "{0}:{1}".format(code.co_filename[len(threads.ROOT):], code.co_name)
                    raise SimInterrupt("cancelled")

    def __enter__(self):
        event = mon.events.INSTRUCTION if self.instr else mon.events.LINE
        mon.use_tool_id(threads.TOOL, "dst")
        mon.register_callback(threads.TOOL, event, self.hit)
        mon.set_events(threads.TOOL, event)
        return self

    def __exit__(self, *args):
        self.left = None
        mon.set_events(threads.TOOL, 0)
        mon.free_tool_id(threads.TOOL)


class C22(Check):
    prop = "C22"
    quick_runs = 30000
    thorough_runs = 1500000
    rule = "non-trivial: an operation was interrupted, or several operations read the same array; distinct by the sequence of operations and faults"
    real = ["awkward0.array.* (all array classes)", "awkward0.persist", "awkward0.arrow, awkward0.pandas (conversions)", "numpy"]
    stub = ["when the user cancels", "which allocation fails", "loaders and caches"]
    assumptions = ["arrays are read, not edited", "a cancelled operation ends between two lines or two instructions of awkward0"]
    required_probes = ["cancelled", "cancelled-instruction", "memory", "load", "arena", "readonly", "compared", "late", "again", "derived-input", "checked-buffers"]

    def nans(self, rng, sp):
        if sp["k"] in ("num", "reg") and sp["dt"] in ("f8", "f4"):
            sp["v"] = [v if rng.randrange(3) else rng.pick([float("nan"), float("nan"), float("inf"), -0.0]) for v in sp["v"]]
        for _, c in S.children(sp):
            self.nans(rng, c)

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = []
        for _ in range(rng.pick([1, 1, 2, 2])):
            r = rng.random()
            if r < 0.2:
                roots.append(gen_root(rng, ser, rng.pick([0.2, 0.5])))
            elif r < 0.5:
                roots.append(S.gen(rng, rng.randrange(1, 7), rng.pick([1, 1, 2]), ser, allow=("jag", "num")))
            elif r < 0.6:
                roots.append(S.gen(rng, rng.randrange(1, 7), 2, ser, allow=("tab", "jag", "num")))
            else:
                roots.append(S.gen(rng, rng.randrange(0, 9), rng.randrange(0, 4), ser, allow=("num", "reg", "jag", "tab", "msk", "imsk", "bmsk", "idx", "str", "chk", "uni", "spa"), virtual=rng.pick([0, 0, 0.2])))
        if rng.chance(0.5):
            for sp in roots:
                self.nans(rng, sp)
        ops = []
        for _ in range(rng.randrange(1, 8)):
            r = rng.random()
            if r < 0.3:
                name = rng.pick(MOSTLY)
            elif r < 0.55:
                name = rng.pick(PLAIN)
            elif r < 0.6:
                name = rng.pick(BAD)
            else:
                name = rng.pick(NAMES)
            if name in OPS:
                op = gen_op(rng, [name])
            else:
                op = {"op": name, "i": rng.randrange(8)}
            if name in ARGS:
                op["args"] = 1
                op["idx"] = [rng.randrange(8) for _ in range(rng.randrange(0, 5))]
                op["bits"] = rng.randrange(256)
                op["dt"] = rng.pick(["i8", "i8", "i8", "i4"])
                op["with"] = rng.randrange(6)
            elif name in OPS and name not in MORE or name not in PLAIN:
                pass
            op["on"] = rng.pick([0, 0, 1, 2, -1, -1])
            op["late"] = rng.pick([0, 0, 1])        # not looked at before everything else has happened
            if rng.chance(0.35):
                op["fault"] = rng.pick([
                    dict({"kind": "cancel", "ats": [rng.randrange(1000) for _ in range(rng.pick([1, 1, 2, 4]))], "instr": 0}, again=rng.pick([0, 1, 1]), narrow=rng.pick([0, 1, 1])),
                    dict({"kind": "cancel", "ats": [rng.randrange(1000) for _ in range(rng.pick([1, 1, 2, 4]))], "instr": 1}, again=rng.pick([0, 1, 1]), narrow=rng.pick([0, 1, 1])),
                    {"kind": "memory", "at": int(rng.random() ** 3 * 16), "times": rng.pick([1, 1, 3, 1000])},
                    {"kind": "load", "at": rng.randrange(4), "exc": rng.pick(["io", "value", "key", "interrupt", "mem"])},
                ])
            ops.append(op)
        cfg = gen_cfg(rng)
        return {"cfg": cfg, "roots": roots, "ops": ops, "arena": rng.pick([0, 0, 1]), "readonly": rng.pick([0, 0, 0, 1]), "ids": rng.pick(["now", "never"])}

    # ------------------------------------------------------------------ a process with arrays in it
    def start(self, plan, ctx, given):
        NUMPY.given = given
        w = World(ctx, dict(plan["cfg"], evict=plan["cfg"].get("evict", [])))
        pool = [S.build(sp, w) for sp in plan["roots"]]
        return w, pool

    def targets(self, op, size, nroots):
        on, other = op["on"], op.get("with", 0)
        if not isinstance(on, int) or not isinstance(other, int):
            raise PlanInvalid("target")
        return (size - 1 if on < 0 else on % size), other % size

    def call(self, a, b, op, given):
        """(what happened, the raw result)"""
        n = 8
        try:
            n = len(a)
        except Exception as err:
            if isinjected(err) or isinstance(err, MemoryError):
                raise
        if op.get("args"):
            return ARGS[op["op"]](a, op, n, given, b)
        return (MORE[op["op"]] if op["op"] in MORE else OPS[op["op"]])[0](a, dict(op, _eager=a), n)

    def outcome(self, a, b, op, given):
        try:
            return None, self.call(a, b, op, given)
        except Violation:
            raise
        except Exception as err:
            return ("raises", type(err).__name__, short(err)), None

    def see(self, res):
        try:
            return ("value", res if isinstance(res, str) else S.norm(res))
        except Exception as err:
            return ("unreadable", type(err).__name__, short(err))

    def same(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == "value":
            return S.same(x[1], y[1])
        return True

    def told(self, seen):
        return S.show(seen[1]) if seen[0] == "value" else "an error (%s)" % (seen[-1],)

    def shown(self, op):
        return dict((k, x) for k, x in op.items() if k in ("op", "i", "c", "lo", "hi", "st", "idx", "bits", "dt"))

    def twin(self, plan, recipes, which, op, other, count=None):
        """what the operation gives where nothing else ever happened; op None: what the array reads as"""
        quiet = plan["_ctx"](False)
        given = Given(0, 0)
        before = NUMPY.given
        try:
            w, roots = self.start(dict(plan, cfg=dict(plan["cfg"], evict=[])), quiet, given)
            made = {}

            def make(i):
                if i not in made:
                    recipe = recipes[i]
                    if isinstance(recipe, int):
                        made[i] = roots[recipe]
                    else:
                        x, y, what = recipe
                        a = make(x)
                        b = make(y) if what.get("args") else None
                        made[i] = self.call(a, b, what, given)
                return made[i]

            try:
                a = make(which)
                b = make(other) if op is not None and op.get("args") else None
            except Exception as err:
                return ("raises", type(err).__name__, short(err))
            if op is None:
                return self.see(a)
            if count is not None:
                with count:
                    return self.outcome(a, b, op, given)
            what, res = self.outcome(a, b, op, given)
            if what is not None:
                return what
            return self.see(res)
        finally:
            NUMPY.given = before

    def execute(self, plan, ctx):
        S.numpy = NUMPY
        NUMPY.given = None
        try:
            self.go(dict(plan, _ctx=type(ctx)), ctx)
        finally:
            NUMPY.given = None
            S.numpy = numpy

    def go(self, plan, ctx):
        given = Given(plan.get("arena", 0), plan.get("readonly", 0))
        if plan.get("arena"):
            ctx.probe("arena")
        if plan.get("readonly"):
            ctx.probe("readonly")
        w, pool = self.start(plan, ctx, given)
        recipes = list(range(len(pool)))
        chunked = any("chk" in S.kinds(sp) for sp in plan["roots"]) or any("chunk" in op["op"].lower() or op["op"] == "append" for op in plan["ops"])
        story = []
        late = []
        used = {}
        for op in plan["ops"]:
            known = ARGS if op.get("args") else (MORE if op["op"] in MORE else OPS)
            if op["op"] not in known or op["op"] in EDITS:
                raise PlanInvalid("op")
            if op["op"] == "series" and chunked:
                continue            # chunked arrays have no pandas form before their length is known
            i, j = self.targets(op, len(pool), len(plan["roots"]))
            a, b = pool[i], pool[j]
            used[i] = used.get(i, 0) + 1
            if used[i] > 1:
                ctx.nontrivial = True
            ctx.sched("op", op["op"], i, type(a).__name__)
            fault = op.get("fault")
            if fault:
                what, res, note = self.faulted(a, b, op, given, fault, w, ctx, plan, recipes, story)
            else:
                what, res = self.outcome(a, b, op, given)
                note = ""
            story.append(op["op"] + (" on %d" % i) + note)
            if note and what is not None:
                ctx.log("lost", what[1])
                self.buffers(ctx, given, op, story)
                continue            # it was interrupted; that must not show
            if what is None and (isinstance(res, awkward0.AwkwardArray) or isinstance(res, numpy.ndarray) and not res.dtype.hasobject) and len(pool) < 12:
                recipes.append((i, j, dict((k, v) for k, v in op.items() if k not in ("fault", "late"))))
                pool.append(res)
                if i >= len(plan["roots"]):
                    ctx.probe("derived-input")
                if op.get("late"):
                    ctx.probe("late")
                    late.append(len(pool) - 1)
                    self.buffers(ctx, given, op, story)
                    continue
            if note and op["op"] in VALID and res is False:
                continue            # it is told so: what cannot be read is not valid
            self.compare(plan, ctx, recipes, i, op, j, what, res, story)
            self.buffers(ctx, given, op, story)
        for k in range(len(pool)):
            ref = self.twin(plan, recipes, k, None, 0)
            ctx.checks += 1
            seen = self.see(pool[k])
            if ref[0] != "value":
                if ref[0] == "unreadable" and seen[0] == "value":
                    raise Violation("C22:accepted", "array {0} reads as {1}; after {2} it reads as {3}".format(k, self.told(ref), "; ".join(story), self.told(seen)))
                continue
            ctx.log("end", k, S.show(seen[1], 100))
            if not self.same(ref, seen):
                raise Violation("C22:changed", "array {0} is {1}; after {2} it reads as {3}".format(k, self.told(ref), "; ".join(story), self.told(seen)))
        self.buffers(ctx, given, None, story)

    def faulted(self, a, b, op, given, fault, w, ctx, plan, recipes, story):
        kind = fault.get("kind")
        at = fault.get("at", 0)
        i, j = self.targets(op, len(recipes), len(plan["roots"]))
        if not isinstance(at, int):
            raise PlanInvalid("at")
        if kind == "cancel":
            if not fault.get("ats") or not all(isinstance(x, int) and 0 <= x < 1000 for x in fault["ats"]):
                raise PlanInvalid("at")
            count = Cancel(None, bool(fault.get("instr")), bool(fault.get("narrow")))
            self.twin(plan, recipes, i, op, j, count)
            note = ""
            for at in fault["ats"]:
                at = at * count.count // 1000
                what, res = None, None
                with Cancel(at, count.instr, count.narrow) as cancel:
                    try:
                        what, res = self.outcome(a, b, op, given)
                    except SimInterrupt as err:
                        what = ("raises", "cancelled", str(err))
                if cancel.where is None:
                    continue
                ctx.fault("cancel")
                ctx.probe("cancelled")
                if fault.get("instr"):
                    ctx.probe("cancelled-instruction")
                ctx.sched("cancelled", cancel.where)
                note = " (cancelled in %s)" % cancel.where
                self.buffers(ctx, given, op, story + [op["op"] + note])
            if fault.get("again"):
                ctx.probe("again")
                what, res = self.outcome(a, b, op, given)
                story.append(op["op"] + " on %d" % i + note)
                return what, res, ""
            return what, res, note
        if kind == "memory":
            FAIL.start(max(0, at), max(1, int(fault.get("times", 1))))
            try:
                what, res = self.outcome(a, b, op, given)
            finally:
                _, failed = FAIL.stop()
            if not failed:
                return what, res, ""
            ctx.fault("allocation")
            ctx.probe("memory")
            ctx.sched("allocation", at)
            return what, res, " (out of memory)"
        if kind == "load":
            w.arm(dict(fault))
            try:
                try:
                    what, res = self.outcome(a, b, op, given)
                except SimFault as err:
                    what, res = ("raises", "load", str(err)), None
            finally:
                fired = w.disarm()
            if fired is None:
                return what, res, ""
            ctx.probe("load")
            return what, res, " (loading failed)"
        raise PlanInvalid("fault")

    def compare(self, plan, ctx, recipes, i, op, j, what, res, story):
        ref = self.twin(plan, recipes, i, op, j)
        seen = what if what is not None else self.see(res)
        ctx.checks += 1
        ctx.log(op["op"], seen[0], S.show(seen[1], 100))
        if ref[0] != "value":
            if seen[0] == "value" and ref[0] == "raises":
                raise Violation("C22:accepted", "{0} raises {1}; after {2} it gives {3}".format(self.shown(op), self.told(ref), "; ".join(story[:-1]) or "nothing", self.told(seen)))
            return
        ctx.probe("compared")
        if not self.same(ref, seen):
            raise Violation("C22:answer", "{0} gives {1}; after {2} it gives {3}".format(self.shown(op), self.told(ref), "; ".join(story[:-1]) or "nothing", self.told(seen)))

    def buffers(self, ctx, given, op, story):
        ctx.checks += 1
        ctx.probe("checked-buffers")
        bad = given.changed()
        if bad is not None:
            raise Violation("C22:buffer", "what the caller gave was {0}; after {1} it is {2}".format(S.show(bad[1].tolist() if isinstance(bad[1], numpy.ndarray) else len(bad[1])), "; ".join(story), S.show(bad[0].tolist() if isinstance(bad[0], numpy.ndarray) else len(bad[0]))))

    def worker_init(self):
        install_failing()


CHECK = C22()

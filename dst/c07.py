"""C07: a chunked array reads as the concatenation of its chunks at every moment."""
import gc

import numpy

import awkward0

from dst import spec as S
from dst.c01 import C01, gen_cfg
from dst.core import PlanInvalid, SimFault, Violation, short
from dst.lazy import OPS, World, gen_op

EXTRA = {
    "count": (lambda a, op, n: a.count(), None),
    "countnz": (lambda a, op, n: a.count_nonzero(), None),
    "mean": (lambda a, op, n: a.mean(), None),
    "fillna": (lambda a, op, n: a.fillna(5), None),
    "tailfancy": (lambda a, op, n: a[numpy.array([i % n for i in op.get("idx", [])] if n else [], dtype="i8"), op.get("i", 0)], None),
    "tailslice": (lambda a, op, n: a[op.get("lo"):op.get("hi"), op.get("i", 0)], None),
    "tailslsl": (lambda a, op, n: a[op.get("lo"):op.get("hi"), :1], None),
    "tailmask": (lambda a, op, n: a[numpy.array([bool((op.get("bits", 5) >> i) & 1) for i in range(n)], dtype=bool), op.get("i", 0)], None),
    "str": (lambda a, op, n: isinstance(str(a), str), None),
    "listmask": (lambda a, op, n: a[[bool((op.get("bits", 5) >> i) & 1) for i in range(n)]] if n else None, None),
    "oob": (lambda a, op, n: a[[n, n + 3, -n - 1, -n - 4][op.get("i", 0) % 4]], None),
    "oobfancy": (lambda a, op, n: a[numpy.array([0, [n, n + 3, -n - 1, -n - 4][op.get("i", 0) % 4]] if n else [0], dtype="i8")], None),
    "badmask": (lambda a, op, n: a[numpy.ones(n + 1, dtype=bool)], None),
    "concat2": (lambda a, op, n: a[: n // 2].concatenate([a[n // 2:]]), lambda v, op, n: v),
    "revslice": (lambda a, op, n: a[::-1], lambda v, op, n: v[::-1]),
    "twoslice": (lambda a, op, n: a[op.get("lo"):op.get("hi")][::2], lambda v, op, n: v[op.get("lo"):op.get("hi")][::2]),
}
ALL = dict(OPS, **EXTRA)
CORE = ["all", "tolist", "len", "index", "iterpart", "slice", "slice", "slice", "fancy", "fancy", "negfancy", "fancylist", "mask", "listmask", "col", "rowcol", "colrow", "copy", "oob", "oobfancy", "badmask",
        "concat2", "revslice", "twoslice"]
MORE = ["add1", "neg", "selfmul", "cmp", "sum", "max", "min", "prod", "any", "all_", "count", "countnz", "counts", "flatten", "argmax", "argmin", "boolmask", "pad", "padclip", "pairs",
        "distincts", "choose", "argpairs", "argdistincts", "columns", "type", "dtype", "shape", "zeros", "ones", "astype", "fillna", "numpy", "regular", "ufuncpair", "colk", "colsl", "cut", "concat", "cols",
        "tailfancy", "tailslice", "tailslsl", "tailmask", "str", "unzip", "argpick", "mult2"]
INTERNAL = ["know", "open", "next", "g2c", "g2l", "l2g", "g2ca", "g2la", "l2ga", "offsets", "cutc", "setcol", "delcol", "addc", "unaligned", "unaligned"]


def concat(cs):
    """one description for the chunks laid end to end"""
    k = cs[0]["k"]
    if k == "vir":
        return concat([S.strip(c) for c in cs])
    if k in ("num", "str"):
        return dict(cs[0], v=[x for c in cs for x in c["v"]])
    if k == "reg":
        return dict(cs[0], n=sum(c["n"] for c in cs), v=[x for c in cs for x in c["v"]])
    if k == "jag":
        return dict(cs[0], counts=[x for c in cs for x in c["counts"]], lead=0, tail=0, c=concat([S.strip(c["c"]) for c in cs]))
    if k == "tab":
        return {"k": "tab", "cols": [[m, concat([S.strip(dict((p, q) for p, q in c["cols"])[m]) for c in cs])] for m, _ in cs[0]["cols"]]}
    if k in ("msk", "bmsk"):
        return dict(cs[0], m=[x for c in cs for x in c["m"]], c=concat([S.strip(c["c"]) for c in cs]))
    raise PlanInvalid("concat")


class C07(C01):
    prop = "C07"
    quick_runs = 24000
    thorough_runs = 900000
    rule = "non-trivial: an operation ran while some, but not all, chunk sizes were known, or a chunk failed to load; distinct by event-sequence hash"
    real = ["ChunkedArray (sizes, offsets, types, slices, conversions, edits, reductions)", "the array classes inside the chunks"]
    stub = ["loaders of the chunks (fail on schedule)", "the cache (evictions)"]
    assumptions = ["all chunks have the same type", "what the same data in one piece cannot do is not asked of the chunked array", "argmax of equal values: the first"]
    required_probes = ["partly-known", "chunk-failed", "live-iterator", "setcol"]

    def gen(self, rng, tier):
        ser = S.Serial()
        kinds = ["num", "jag", "tab", "str", "msk"] + (["reg"] if rng.chance(0.15) else [])
        n = rng.randrange(0, 12)
        sizes = S.split(rng, n)
        if rng.chance(0.3):
            for _ in range(rng.randrange(1, 3)):
                sizes.insert(rng.randrange(len(sizes) + 1), 0)
        first = S.gen(rng, sizes[0], rng.pick([0, 0, 1, 1, 2]), ser, allow=kinds)
        cs = [first] + [S.refill(first, m, rng, ser) for m in sizes[1:]]
        pv = rng.pick([0, 0.5, 1.0, 1.0])
        cs = [{"k": "vir", "c": c} if rng.chance(pv) else c for c in cs]
        known = rng.pick([0, 0, 0, rng.randrange(len(cs) + 1)])
        ops = []
        for _ in range(rng.randrange(2, 12)):
            r = rng.random()
            if r < 0.06:
                ops.append({"op": rng.pick(["evictall", "gc"])})
                continue
            name = rng.pick(CORE) if r < 0.45 else rng.pick(MORE) if r < 0.7 else rng.pick(INTERNAL)
            op = gen_op(rng, [name])
            op["on"] = rng.pick([0, 0, rng.randrange(5)])
            op.setdefault("i", rng.randrange(0, 10))
            if name in ("tailfancy",):
                op["idx"] = sorted(rng.randrange(12) for _ in range(rng.randrange(0, 5)))
                op["i"] = rng.pick([0, 0, -1, 1])
            if name in ("tailslice", "tailslsl", "twoslice", "tailmask", "listmask"):
                op["lo"], op["hi"], op["i"], op["bits"] = rng.pick([None, 0, 1, 3]), rng.pick([None, 2, 5, 8]), rng.pick([0, 0, -1, 1]), rng.randrange(4096)
            if name in ("fancy", "negfancy", "fancylist"):
                op["idx"] = [rng.randrange(12) for _ in range(rng.randrange(0, 6))]
                if rng.chance(0.4):
                    op["idx"].sort()
            if name in ("g2ca", "g2la", "l2ga"):
                op["idx"] = [rng.randrange(-12, 12) for _ in range(rng.randrange(1, 5))]
            if name in ("mask",):
                op["bits"] = rng.randrange(4096)
            if name in ("index", "rowcol", "colrow"):
                op["i"] = rng.randrange(-13, 13)
            if rng.chance(0.25):
                op["fault"] = {"exc": rng.pick(["io", "io", "index", "key", "value", "attr", "stop", "type"]), "at": rng.pick([0, 0, 1, 2]), "kinds": ["gen"], "times": rng.pick([1, 1, 3, 99])}
            ops.append(op)
        return {"cfg": gen_cfg(rng), "cs": cs, "known": known, "ops": ops, "ids": rng.pick(["now", "later", "never"])}

    def execute(self, plan, ctx):
        w = World(ctx, plan["cfg"])
        cs = plan["cs"]
        if not cs:
            raise PlanInvalid("chunks")
        one = concat([S.strip(c) for c in cs])
        sizes = [S.length(c) for c in cs]
        v = S.norm(S.pyvalue(one))
        if v != S.norm([x for c in cs for x in S.pyvalue(c)]):
            raise PlanInvalid("concat")
        n = len(v)
        a = awkward0.ChunkedArray([S.build(c, w) for c in cs], sizes[: plan["known"]])
        # the chunks without laziness, freshly built for every question about what the library supports at all
        pool = [[a, S.build(one), v, sizes, lambda: awkward0.ChunkedArray([S.build(S.strip(c)) for c in cs])]]
        edited = False
        its = []
        kinds = S.kinds(one)
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                continue
            if name == "gc":
                gc.collect()
                continue
            k = op.get("on", 0) % len(pool)
            a, eager, v, sizes, plain = pool[k]
            n = len(v)
            if isinstance(a, awkward0.ChunkedArray) and 0 < len(a._chunksizes) < len(a._chunks):
                ctx.probe("partly-known")
                ctx.nontrivial = True
            if name in INTERNAL:
                if sizes is None:
                    continue
                fcn = lambda: self.internal(ctx, w, name, op, pool[k], its)
                expect = True
                eres = None
            else:
                if name not in ALL:
                    raise PlanInvalid("op")
                want = self.wanted(ctx, op, eager, v, n, kinds, name, plain)
                if want is None:
                    continue
                eres, expect = want
                fcn = lambda: ALL[name][0](a, op, n)
            ctx.sched("op", step, name)
            for attempt in range(2 if op.get("fault") else 1):
                last = attempt == (1 if op.get("fault") else 0)
                if not last:
                    w.arm(op["fault"])
                err = res = got = None
                try:
                    res = fcn()
                    got = res if name in INTERNAL or expect is Raises else S.norm(res)
                except Violation:
                    raise
                except Exception as e:
                    err = e
                fired = w.disarm()
                ctx.checks += 1
                ctx.log(step, name, "attempt", attempt, "raised " + type(err).__name__ if err is not None else "gave " + S.show(got, 120))
                if fired:
                    ctx.probe("chunk-failed")
                    ctx.nontrivial = True
                if err is not None:
                    if expect is Raises or fired:
                        err = None
                        continue
                    if name in MORE and self.chunkcannot(ctx, a, op, name):
                        break
                    raise Violation("C07:raises", "{0}{1} on chunks {2}: expected {3}, raises {4}".format(
                        self.shown(op), " after a failed load" if attempt else "", sizes, S.show(expect), short(err)))
                if expect is Raises:
                    raise Violation("C07:accepted", "{0} on chunks {1}: out of range, but gave {2}".format(self.shown(op), sizes, S.show(S.norm(res))))
                if not S.same(got, expect):
                    raise Violation("C07:value", "{0}{1} on chunks {2}: expected {3}, got {4}".format(
                        self.shown(op), " while a load failed" if fired else " after a failed load" if attempt else "", sizes, S.show(expect), S.show(got)))
                if last or name in ("setcol", "delcol", "next"):
                    break
            if name in ("setcol", "delcol"):
                kinds = S.kinds(one) | {"edited"}
            if err is None and name not in INTERNAL and expect is not Raises and len(pool) < 5 and isinstance(res, (numpy.ndarray, awkward0.AwkwardArray)) and name not in ("all", "tolist", "numpy"):
                if isinstance(expect, list) and len(expect) == len(res):
                    pool.append([res, eres, expect, None, None])
        for k, (a, eager, v, sizes, plain) in enumerate(pool):
            got = S.norm(a)
            ctx.checks += 1
            if not S.same(got, v):
                raise Violation("C07:final", "array {0} ends as {1}, expected {2}".format(k, S.show(got), S.show(v)))
        a, eager, v, sizes, plain = pool[0]
        self.sizes(a, sizes)
        if len(a) != len(v) or [int(x) for x in a.chunksizes] != sizes:
            raise Violation("C07:sizes", "at the end the chunk sizes are {0}, expected {1}".format(a.chunksizes, sizes))

    def wanted(self, ctx, op, eager, v, n, kinds, name, plain):
        """what the same data in one piece give: (result, value) or None if it is not to be asked"""
        fcn, model = ALL[name]
        if name in ("sum", "max", "min", "prod", "argmax", "argmin", "any", "all_", "count", "countnz", "mean") and ("reg" in kinds or "tab" in kinds):
            return None         # reductions of rows and of fixed-size items: numpy and the array classes do not agree among themselves
        if name in MORE and (n == 0 or (name == "flatten" and "str" in kinds)):
            return None         # types of nothing are not known
        if name == "numpy" and kinds - {"chk", "vir", "num"} or name == "cmp" and "reg" in kinds:
            return None         # items of the same length by accident; fixed-size items in tables
        if name == "fillna" and kinds - {"chk", "vir", "num", "msk"} or name == "astype" and "str" in kinds:
            return None         # the array classes do not agree among themselves on these
        if name in ("oob", "oobfancy", "badmask"):
            return None, Raises
        try:
            eres = fcn(eager, op, n)
            value = S.norm(eres)
        except IndexError:
            if model is not None and name in ("index", "rowcol") and not -n <= op.get("i", 0) < n:
                return None, Raises
            return None
        except Exception:
            return None
        if model is not None and name not in ("cols", "col", "attr"):
            try:
                if not S.same(value, S.norm(model(v, op, n))):
                    ctx.probe("model-differs")
                    return None
            except Exception:
                return None
        return eres, value

    @staticmethod
    def chunkcannot(ctx, a, op, name):
        """a piece on its own, taken out of the chunked array, cannot do it either"""
        if not isinstance(a, awkward0.ChunkedArray):
            return False
        for c in a.chunks:
            try:
                if isinstance(c, awkward0.VirtualArray):
                    c = c.array
                S.norm(ALL[name][0](c, op, len(c)))
            except Exception:
                ctx.probe("chunk-alone-cannot")
                return True
        return False

    # ------------------------------------------------------------------ what only chunked arrays have

    @staticmethod
    def sizes(a, sizes):
        known = [int(x) for x in a._chunksizes]
        if known != sizes[: len(known)]:
            raise Violation("C07:sizes", "the known chunk sizes are {0}, but the chunks are {1}".format(known, sizes))
        offsets = [int(x) for x in a.offsets]
        if offsets != [sum(known[:i]) for i in range(len(known) + 1)]:
            raise Violation("C07:offsets", "offsets are {0} for chunk sizes {1}".format(offsets, known))
        if a.chunksizesknown != (len(known) == len(sizes)):
            raise Violation("C07:known", "chunksizesknown is {0} with {1} of {2} sizes".format(a.chunksizesknown, len(known), len(sizes)))

    def internal(self, ctx, w, name, op, entry, its):
        a, eager, v, sizes, plain = entry
        n = len(v)
        start = [sum(sizes[:i]) for i in range(len(sizes))]

        def where(i):
            i = i + n if i < 0 else i
            c = max(j for j in range(len(sizes)) if start[j] <= i and sizes[j] > 0)
            return c, i - start[c]

        def bad(what, got, want):
            raise Violation("C07:conversion", "{0} gave {1}, expected {2} (chunks {3})".format(what, got, want, sizes))

        def raises(what, f):
            try:
                got = f()
            except (IndexError, ValueError):
                return
            raise Violation("C07:accepted", "{0} is out of range, but gave {1} (chunks {2})".format(what, S.show(S.norm(got)) if not isinstance(got, tuple) else got, sizes))

        i = op.get("i", 0)
        idx = [x for x in op.get("idx", []) if -n <= x < n]
        if name == "know":
            a.knowchunksizes(i % (len(sizes) + 2))
            self.sizes(a, sizes)
            if len(a._chunksizes) < min(i % (len(sizes) + 2), len(sizes)):
                raise Violation("C07:known", "knowchunksizes({0}) left only {1} sizes known".format(i % (len(sizes) + 2), len(a._chunksizes)))
        elif name == "offsets":
            self.sizes(a, sizes)
        elif name == "open":
            its.append([iter(a), 0, list(v), "edit"])
        elif name == "next":
            if not its:
                return True
            it = its[i % len(its)]
            for _ in range(1 + i // 3):
                if it[0] is None:
                    break
                try:
                    x = S.norm(next(it[0]))
                except StopIteration:
                    it[0] = None
                    if it[1] != len(it[2]):
                        raise Violation("C07:iterator", "an iterator stopped after {0} of {1} elements".format(it[1], len(it[2])))
                    break
                except Exception:
                    it[0] = None
                    if w.fired:
                        raise
                    raise
                ctx.probe("live-iterator")
                if it[1] >= len(it[2]) or not self.agree(x, it[2][it[1]]):
                    raise Violation("C07:iterator", "element {0} of an iterator is {1}, expected {2}".format(it[1], S.show(x), S.show(it[2][it[1]: it[1] + 1])))
                it[1] += 1
        elif name == "g2c":
            if not -n <= i < n:
                raises("global2chunkid({0})".format(i), lambda: a.global2chunkid(i))
            else:
                got = a.global2chunkid(i)
                if int(got) != where(i)[0]:
                    bad("global2chunkid({0})".format(i), got, where(i)[0])
        elif name == "g2ca":
            if idx:
                got = [int(x) for x in a.global2chunkid(numpy.array(idx))]
                if got != [where(x)[0] for x in idx]:
                    bad("global2chunkid({0})".format(idx), got, [where(x)[0] for x in idx])
        elif name == "g2l":
            if not -n <= i < n:
                raises("global2local({0})".format(i), lambda: a.global2local(i))
            else:
                chunk, local = a.global2local(i)
                c, j = where(i)
                if int(local) != j or chunk is not a.chunks[c]:
                    bad("global2local({0})".format(i), (S.show(S.norm(chunk)), local), (c, j))
        elif name == "g2la":
            if idx:
                chunks, local = a.global2local(numpy.array(idx))
                for x, chunk, l in zip(idx, chunks, local):
                    if int(l) != where(x)[1] or chunk is not a.chunks[where(x)[0]]:
                        bad("global2local({0})".format(idx), (S.show(S.norm(chunk)), l), where(x))
        elif name == "l2g":
            c = i % len(sizes)
            j = (i * 7) % 13 - 6
            if not -sizes[c] <= j < sizes[c]:
                raises("local2global({0}, {1})".format(j, c), lambda: a.local2global(j, c))
            else:
                got = int(a.local2global(j, c))
                want = start[c] + (j + sizes[c] if j < 0 else j)
                if got != want:
                    bad("local2global({0}, {1})".format(j, c), got, want)
        elif name == "l2ga":
            pairs = [where(x) for x in idx]
            if pairs:
                got = [int(x) for x in a.local2global(numpy.array([j - (sizes[c] if i % 2 else 0) for c, j in pairs]), numpy.array([c for c, j in pairs]))]
                want = [x + n if x < 0 else x for x in idx]
                if got != want:
                    bad("local2global of {0}".format(pairs), got, want)
        elif name == "cutc":
            # a chunked array as a mask
            bits = [bool((i * 37 + 11 * k) % 3) for k in range(n)]
            m = awkward0.ChunkedArray([numpy.array(bits[s:s + k], dtype=bool) for s, k in zip(start, sizes)])
            got = S.norm(a[m])
            want = [x for x, b in zip(v, bits) if b]
            if not S.same(got, want):
                raise Violation("C07:value", "masked by a chunked array: {0}, expected {1}".format(S.show(got), S.show(want)))
        elif name == "addc":
            # arithmetic with another chunked array, and with one in a single piece
            if n and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
                other = [i + k for k in range(n)]
                m = awkward0.ChunkedArray([numpy.array(other[s:s + k], dtype="f8") for s, k in zip(start, sizes)])
                for got in (a + m, m + a, a + numpy.array(other, dtype="f8"), numpy.array(other, dtype="f8") + a):
                    if not all(abs(x - (y + z)) < 1e-6 for x, y, z in zip(S.norm(got), v, other)) or len(got) != n:
                        raise Violation("C07:value", "a sum of chunked arrays is {0}, expected that of {1} and {2}".format(S.show(S.norm(got)), S.show(v), other))
        elif name == "unaligned":
            # with a chunked array that is divided elsewhere: what the elements give, or refused, whatever is known of both
            other = list(reversed(sizes)) if i % 2 else ([1, n - 1] if i % 4 else [n - 1, 1]) if n > 1 else sizes
            if other == sizes or n < 2:
                return True
            begin = [sum(other[:j]) for j in range(len(other))]
            cut = lambda dt, x: awkward0.ChunkedArray([numpy.array(x[s:s + k], dtype=dt) for s, k in zip(begin, other)], other[: i % 3])
            numeric = all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v)
            plus = [i + k for k in range(n)]
            bits = [bool((i * 37 + 11 * k) % 3) for k in range(n)]
            tries = [("used as a mask on", lambda: a[cut("?", bits)], [x for x, b in zip(v, bits) if b], True)]
            if numeric:
                tries += [("added to", lambda: a + cut("f8", plus), [x + y for x, y in zip(v, plus)], False), ("plus", lambda: cut("f8", plus) + a, [x + y for x, y in zip(v, plus)], False)]
            for what, f, want, exact in tries:
                try:
                    got = S.norm(f())
                except Exception:
                    if w.fired:
                        raise
                    continue
                if not (S.same(got, want) if exact else len(got) == n and all(abs(x - y) < 1e-6 for x, y in zip(got, want))):
                    raise Violation("C07:unaligned", "an array with chunks {0} {1} one with chunks {2} gives {3}, expected {4} or an error".format(other, what, sizes, S.show(got), S.show(want)))
            ctx.probe("unaligned")
        elif name == "setcol":
            if not (v and all(isinstance(x, dict) for x in v)):
                return True
            new = [i * 100 + k for k in range(n)]
            m = awkward0.ChunkedArray([numpy.array(new[s:s + k], dtype="i8") for s, k in zip(start, sizes)])
            c = ["x", "w"][i % 2]
            a[c] = m
            ctx.probe("setcol")
            eager[c] = numpy.array(new, dtype="i8")
            entry[2] = [dict(r, **{c: x}) for r, x in zip(v, new)]
            for it in its:
                it[2] = [(x, y) if not isinstance(x, tuple) else x + (y,) for x, y in zip(it[2], entry[2])]
        elif name == "delcol":
            if not (v and all(isinstance(x, dict) and len(x) > 1 for x in v)):
                return True
            c = sorted(v[0])[i % len(v[0])]
            del a[c]
            del eager[c]
            entry[2] = [dict((m, x) for m, x in r.items() if m != c) for r in v]
            for it in its:
                it[2] = [(x, y) if not isinstance(x, tuple) else x + (y,) for x, y in zip(it[2], entry[2])]
        return True

    @staticmethod
    def agree(x, want):
        """an iterator opened before an edit may give either"""
        if isinstance(want, tuple):
            return any(S.same(x, y) for y in want)
        return S.same(x, want)


class Raises(object):
    pass


CHECK = C07()

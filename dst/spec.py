"""JSON descriptions of arrays, with an independent Python-value model.

spec -> pyvalue(spec): the logical content as plain Python data (the oracle)
spec -> build(spec, env): the awkward array; nodes of kind "vir" become
        VirtualArrays through env.virtual(spec), so the environment decides
        caching, faults and eviction.  build(spec, None) builds eagerly.
"""
import numpy

import awkward0
import awkward0.type
from dst.core import PlanInvalid

INTS = ["i8", "i4", "i2", "u1"]


class Serial(object):
    """unique values, so that every value read is attributable to one place"""
    def __init__(self, start=0):
        self.n = start

    def next(self):
        self.n += 1
        return self.n


def gen_leaf(rng, n, ser, dt=None):
    dt = dt or rng.pick(["i8", "i8", "i4", "f8", "f8", "f4", "u1", "bool"])
    vals = []
    for i in range(n):
        v = ser.next()
        if dt in ("f8", "f4"):
            vals.append(v + 0.5)
        elif dt == "u1":
            vals.append(v % 251)
        elif dt == "bool":
            vals.append(bool(rng.randrange(2)))
        else:
            vals.append(v if rng.randrange(4) else -v)
    return {"k": "num", "dt": dt, "v": vals}


def gen_counts(rng, n, maxc=4):
    return [rng.wpick([(0, 3), (1, 3), (2, 3), (3, 2), (maxc, 1)]) for _ in range(n)]


# what each kind may contain, in the mixes the library supports end to end
def gen(rng, n, depth, ser, allow=("num", "reg", "jag", "tab", "msk", "idx", "str"), virtual=0.0, dt=None):
    """a spec of length n"""
    if virtual and rng.chance(virtual):
        return {"k": "vir", "c": gen(rng, n, depth, ser, allow, virtual * 0.6, dt)}
    if depth <= 0:
        leaf = [k for k in allow if k in ("num", "reg", "str")] or ["num"]
        k = rng.wpick([(x, 4 if x == "num" else 1) for x in leaf])
    else:
        k = rng.wpick([(x, {"num": 1, "jag": 4, "tab": 4, "msk": 2, "idx": 2, "str": 1, "reg": 1, "chk": 3, "uni": 1, "imsk": 1, "bmsk": 1}.get(x, 1)) for x in allow])
    sub = depth - 1
    if k == "uni" and n == 0:
        k = "num"        # the library has no empty union
    if k == "num":
        return gen_leaf(rng, n, ser, dt)
    if k == "reg":
        w = rng.randrange(1, 4)
        leaf = gen_leaf(rng, n * w, ser, rng.pick(["i8", "f8"]))
        return {"k": "reg", "dt": leaf["dt"], "w": w, "n": n, "v": leaf["v"]}
    if k == "str":
        return {"k": "str", "v": ["s%d" % ser.next() if rng.randrange(4) else "" for _ in range(n)]}
    if k == "jag":
        counts = gen_counts(rng, n)
        inner = [x for x in allow if x != "uni"]
        return {"k": "jag", "counts": counts, "lead": rng.pick([0, 0, 1, 2]), "tail": rng.pick([0, 0, 1]),
                "style": rng.pick(["offsets", "counts", "startsstops"]),
                "c": gen_padded(rng, counts, sub, ser, inner, virtual)}
    if k == "tab":
        names = ["x", "y", "z"][: rng.randrange(1, 4)]
        return {"k": "tab", "cols": [[m, gen(rng, n, sub, ser, allow, virtual)] for m in names]}
    if k == "msk":
        return {"k": "msk", "m": [bool(rng.randrange(3) == 0) for _ in range(n)], "when": bool(rng.randrange(2)),
                "c": gen(rng, n, min(sub, 1), ser, [x for x in allow if x in ("num", "jag", "tab", "str")] or ["num"], virtual)}
    if k == "bmsk":
        return {"k": "bmsk", "m": [bool(rng.randrange(3) == 0) for _ in range(n)], "when": bool(rng.randrange(2)), "ls": bool(rng.randrange(2)),
                "c": gen(rng, n, min(sub, 1), ser, [x for x in allow if x in ("num", "jag", "tab", "str")] or ["num"], virtual)}
    if k == "imsk":
        m = [bool(rng.randrange(3) == 0) for _ in range(n)]
        cn = m.count(False) + rng.randrange(2)
        order = list(range(m.count(False)))
        return {"k": "imsk", "m": m, "c": gen(rng, cn, min(sub, 1), ser, [x for x in allow if x in ("num", "jag", "tab", "str")] or ["num"], virtual), "order": order}
    if k == "spa":
        m = [bool(rng.randrange(2)) for _ in range(n)]
        return {"k": "spa", "m": m, "c": gen(rng, m.count(False), 0, ser, ("num",), virtual)}
    if k == "idx":
        cn = n + rng.randrange(0, 3)
        index = [rng.randrange(cn) if cn else 0 for _ in range(n)]
        return {"k": "idx", "index": index, "c": gen(rng, cn, sub, ser, [x for x in allow if x != "uni"], virtual)}
    if k == "uni":
        tags = [rng.randrange(2) for _ in range(n)]
        return {"k": "uni", "tags": tags, "cs": [gen(rng, tags.count(0), 0, ser, ("num",), virtual, "i8"),
                                               gen(rng, tags.count(1), sub, ser, [x for x in allow if x in ("num", "jag", "tab")] or ["num"], virtual)]}
    if k == "chk":
        sizes = split(rng, n)
        # all chunks must have the same type: generate a skeleton once, refill values
        first = gen(rng, sizes[0], sub, ser, [x for x in allow if x not in ("chk", "uni")], 0)
        cs = [first] + [refill(first, m, rng, ser) for m in sizes[1:]]
        cs = [{"k": "vir", "c": c} if virtual and rng.chance(max(virtual, 0.5)) else c for c in cs]
        return {"k": "chk", "cs": cs, "known": rng.pick([0, 0, 1])}
    raise AssertionError(k)


def gen_padded(rng, counts, depth, ser, allow, virtual):
    return gen(rng, sum(counts), depth, ser, allow, virtual)


def split(rng, n):
    """chunk sizes summing to n, sometimes with empty chunks"""
    sizes = []
    left = n
    while left > 0:
        if rng.chance(0.15):
            sizes.append(0)
            continue
        m = rng.randrange(1, min(left, 6) + 1)
        sizes.append(m)
        left -= m
    if rng.chance(0.2) or not sizes:
        sizes.append(0)
    return sizes


def refill(spec, n, rng, ser):
    """a spec of the same high-level type with length n and fresh values"""
    k = spec["k"]
    if k == "num":
        return gen_leaf(rng, n, ser, spec["dt"])
    if k == "reg":
        leaf = gen_leaf(rng, n * spec["w"], ser, spec["dt"])
        return {"k": "reg", "dt": spec["dt"], "w": spec["w"], "n": n, "v": leaf["v"]}
    if k in ("str", "byt"):
        return {"k": k, "v": ["s%d" % ser.next() for _ in range(n)]}
    if k == "jag":
        counts = gen_counts(rng, n)
        return {"k": "jag", "counts": counts, "lead": 0, "tail": 0, "style": spec["style"], "c": refill(spec["c"], sum(counts), rng, ser)}
    if k == "tab":
        return {"k": "tab", "cols": [[m, refill(c, n, rng, ser)] for m, c in spec["cols"]]}
    if k in ("msk", "bmsk"):
        return dict(spec, m=[bool(rng.randrange(3) == 0) for _ in range(n)], c=refill(spec["c"], n, rng, ser))
    if k == "imsk":
        m = [bool(rng.randrange(3) == 0) for _ in range(n)]
        return {"k": "imsk", "m": m, "c": refill(spec["c"], m.count(False), rng, ser), "order": list(range(m.count(False)))}
    if k == "spa":
        m = [bool(rng.randrange(2)) for _ in range(n)]
        return {"k": "spa", "m": m, "c": refill(spec["c"], m.count(False), rng, ser)}
    if k == "idx":
        return {"k": "idx", "index": [rng.randrange(n) for _ in range(n)], "c": refill(spec["c"], n, rng, ser)}
    if k == "vir":
        return {"k": "vir", "c": refill(spec["c"], n, rng, ser)}
    if k == "chk":
        return {"k": "chk", "cs": [refill(spec["cs"][0], n, rng, ser)], "known": 0}
    raise AssertionError(k)


# --------------------------------------------------------------------------- the model

def length(spec):
    k = spec["k"]
    if k in ("num", "str", "byt"):
        return len(spec["v"])
    if k == "reg":
        return spec["n"]
    if k == "jag":
        return len(spec["counts"])
    if k == "tab":
        return min(length(c) for _, c in spec["cols"]) if spec["cols"] else 0
    if k in ("msk", "bmsk", "imsk", "spa"):
        return len(spec["m"])
    if k == "idx":
        return len(spec["index"])
    if k == "uni":
        return len(spec["tags"])
    if k == "chk":
        return sum(length(c) for c in spec["cs"])
    if k == "vir":
        return length(spec["c"])
    if k == "app":
        return len(spec["v"])
    raise PlanInvalid("kind")


def pyvalue(spec):
    k = spec["k"]
    if k == "num":
        return list(spec["v"])
    if k == "str":
        return list(spec["v"])
    if k == "byt":
        return [x.encode("utf-8") for x in spec["v"]]
    if k == "reg":
        w = spec["w"]
        return [list(spec["v"][i * w:(i + 1) * w]) for i in range(spec["n"])]
    if k == "jag":
        c = pyvalue(spec["c"])
        out, pos = [], 0
        for m in spec["counts"]:
            out.append(c[pos:pos + m])
            pos += m
        if pos > len(c):
            raise PlanInvalid("jagged content too short")
        return out
    if k == "tab":
        cols = [(n, pyvalue(c)) for n, c in spec["cols"]]
        m = min(len(c) for _, c in cols) if cols else 0
        return [dict((n, c[i]) for n, c in cols) for i in range(m)]
    if k in ("msk", "bmsk"):
        c = pyvalue(spec["c"])
        if len(c) < len(spec["m"]):
            raise PlanInvalid("mask")
        return [None if m else x for m, x in zip(spec["m"], c)]
    if k == "imsk":
        c = pyvalue(spec["c"])
        out, pos = [], 0
        for m in spec["m"]:
            if m:
                out.append(None)
            else:
                if pos >= len(c):
                    raise PlanInvalid("imsk")
                out.append(c[pos])
                pos += 1
        return out
    if k == "spa":
        c = pyvalue(spec["c"])
        leaf = spec["c"]
        while leaf["k"] == "vir":
            leaf = leaf["c"]
        if leaf["k"] != "num" or len(c) != spec["m"].count(False):
            raise PlanInvalid("sparse")
        zero = dtype(leaf["dt"]).type(0).item()
        rest = iter(c)
        return [zero if m else next(rest) for m in spec["m"]]
    if k == "idx":
        c = pyvalue(spec["c"])
        if any(not 0 <= i < len(c) for i in spec["index"]):
            raise PlanInvalid("index")
        return [c[i] for i in spec["index"]]
    if k == "uni":
        cs = [pyvalue(c) for c in spec["cs"]]
        pos = [0] * len(cs)
        out = []
        for t in spec["tags"]:
            if t >= len(cs) or pos[t] >= len(cs[t]):
                raise PlanInvalid("union")
            out.append(cs[t][pos[t]])
            pos[t] += 1
        return out
    if k == "chk":
        return [x for c in spec["cs"] for x in pyvalue(c)]
    if k == "vir":
        return pyvalue(spec["c"])
    raise PlanInvalid("kind")


# --------------------------------------------------------------------------- construction

def dtype(dt):
    return numpy.dtype({"bool": numpy.bool_}.get(dt, dt))


def pad_front(spec, lead, tail):
    """how many junk entries a jagged array has around its live content"""
    return lead, tail


def build(spec, env=None):
    k = spec["k"]
    if k == "vir":
        if env is None:
            return build(spec["c"], None)
        return env.virtual(spec)
    if k == "num":
        return numpy.array(spec["v"], dtype=dtype(spec["dt"]))
    if k == "reg":
        return numpy.array(spec["v"], dtype=dtype(spec["dt"])).reshape(spec["n"], spec["w"])
    if k == "str":
        if len(spec["v"]) == 0:
            return awkward0.StringArray.fromcounts(numpy.array([], dtype="i8"), numpy.array([], dtype="u1"), encoding="utf-8")
        return awkward0.StringArray.fromiter(spec["v"], encoding="utf-8")
    if k == "byt":
        return awkward0.StringArray.fromiter([x.encode("utf-8") for x in spec["v"]], encoding=None)
    if k == "jag":
        c = build(spec["c"], env)
        counts = numpy.array(spec["counts"], dtype="i8")
        offsets = numpy.zeros(len(counts) + 1, dtype="i8")
        offsets[1:] = numpy.cumsum(counts)
        if spec["style"] == "counts" and offsets[-1] == length(spec["c"]):
            # fromcounts/fromoffsets look at len(content) when it must match
            return awkward0.JaggedArray(offsets[:-1], offsets[1:], c)
        if spec["style"] == "startsstops":
            return awkward0.JaggedArray(offsets[:-1].copy(), offsets[1:].copy(), c)
        return awkward0.JaggedArray.fromoffsets(offsets, c)
    if k == "tab":
        out = awkward0.Table()
        for n, c in spec["cols"]:
            out.contents[n] = build(c, env)
        return out
    if k == "msk":
        m = numpy.array(spec["m"], dtype=bool)
        if not spec["when"]:
            m = numpy.array(~m)
        return awkward0.MaskedArray(m, build(spec["c"], env), maskedwhen=spec["when"])
    if k == "bmsk":
        m = numpy.array(spec["m"], dtype=bool)
        if not spec["when"]:
            m = numpy.array(~m)
        return awkward0.BitMaskedArray.fromboolmask(m, build(spec["c"], env), maskedwhen=spec["when"], lsborder=spec["ls"])
    if k == "imsk":
        index, pos = [], 0
        for m in spec["m"]:
            if m:
                index.append(-1)
            else:
                index.append(pos)
                pos += 1
        return awkward0.IndexedMaskedArray(numpy.array(index, dtype="i8"), build(spec["c"], env))
    if k == "spa":
        return awkward0.SparseArray(len(spec["m"]), numpy.array([i for i, m in enumerate(spec["m"]) if not m], dtype="i8"), build(spec["c"], env))
    if k == "idx":
        return awkward0.IndexedArray(numpy.array(spec["index"], dtype="i8"), build(spec["c"], env))
    if k == "uni":
        return awkward0.UnionArray.fromtags(numpy.array(spec["tags"], dtype="u1"), [build(c, env) for c in spec["cs"]])
    if k == "chk":
        cs = [build(c, env) for c in spec["cs"]]
        if spec.get("known"):
            return awkward0.ChunkedArray(cs, [length(c) for c in spec["cs"]])
        return awkward0.ChunkedArray(cs)
    raise PlanInvalid("kind")


def virtuals(spec, path=()):
    """all vir nodes, outermost first"""
    out = []
    k = spec["k"]
    if k == "vir":
        out.append((path, spec))
    for name, c in children(spec):
        out.extend(virtuals(c, path + (name,)))
    return out


def children(spec):
    k = spec["k"]
    if k in ("vir", "jag", "msk", "bmsk", "imsk", "idx", "spa"):
        return [("c", spec["c"])]
    if k == "tab":
        return [("cols:" + n, c) for n, c in spec["cols"]]
    if k in ("chk", "uni"):
        return [("cs:%d" % i, c) for i, c in enumerate(spec["cs"])]
    return []


def kinds(spec):
    out = {spec["k"]}
    for _, c in children(spec):
        out |= kinds(c)
    return out


def strip(spec):
    """the same logical array without laziness"""
    k = spec["k"]
    if k == "vir":
        return strip(spec["c"])
    out = dict(spec)
    if "c" in out:
        out["c"] = strip(out["c"])
    if "cs" in out:
        out["cs"] = [strip(c) for c in out["cs"]]
    if "cols" in out:
        out["cols"] = [[n, strip(c)] for n, c in out["cols"]]
    return out


# --------------------------------------------------------------------------- observation

def norm(x):
    """any result (array, row, scalar, tuple, bool) as comparable plain data"""
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, numpy.ma.core.MaskedConstant):
        return None
    if isinstance(x, (bool, numpy.bool_)):
        return bool(x)
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        x = float(x)
        return "nan" if x != x else x
    if isinstance(x, numpy.ndarray):
        if x.dtype.names is not None:
            return [dict((n, norm(r[n])) for n in x.dtype.names) for r in x]
        return norm(x.tolist())
    if isinstance(x, dict):
        return dict((k, norm(v)) for k, v in x.items())
    if isinstance(x, tuple):
        return [norm(y) for y in x]
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, awkward0.Table.Row):
        if x._table.istuple:
            return [norm(x[n]) for n in x.columns]
        return dict((n, norm(x[n])) for n in x.columns)
    if isinstance(x, awkward0.AwkwardArray):
        return [norm(y) for y in x]
    if isinstance(x, numpy.generic):
        return norm(x.item())
    return x


def typeform(t):
    """a high-level type as plain data, without the sharing labels of its string form"""
    T = awkward0.type
    if isinstance(t, T.ArrayType):
        return ["array", "inf" if t.takes == numpy.inf else int(t.takes), typeform(t.to)]
    if isinstance(t, T.TableType):
        return ["table", dict((n, typeform(t[n])) for n in t.columns)]
    if isinstance(t, T.UnionType):
        return ["union"] + [typeform(x) for x in t.possibilities]
    if isinstance(t, T.OptionType):
        return ["option", typeform(t.type)]
    return str(t)


def same(a, b):
    """equality of normalised data; bool/int/float compare by value"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        return False
    if a is None or b is None:
        return a is None and b is None
    return a == b


def show(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."

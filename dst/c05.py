"""C05: lazy data are loaded only when needed, and once while held."""
import weakref

import numpy

import awkward0
import awkward0.type

from dst import spec as S
from dst.core import Check, PlanInvalid, Violation, short
from dst.lazy import OPS, Node, World

CALC = ["sum", "max", "min", "prod", "any", "all_", "argmax", "argmin", "counts", "flatten", "add1", "neg", "selfmul", "boolmask", "pad", "padclip", "pairs", "distincts", "choose",
        "argpairs", "numpy", "regular", "ufuncpair", "cmp", "cut", "argpick", "unzip", "type", "tolist", "concat", "astype", "repr", "zeros", "iterpart", "mult2", "colk"]


class World05(World):
    """every lazy node says itself whether it declares its type; loads are attributed to nodes"""

    def __init__(self, ctx, cfg):
        super(World05, self).__init__(ctx, cfg)
        self.made = {}          # node number -> weak references to the lazy arrays that stand for it
        self.store = getattr(self.cache, "data", None)
        if self.store is None and isinstance(self.cache, dict):
            self.store = self.cache
        self.quiet = False
        self.dropped = False
        self.kept = []

    def number(self, sp):
        node = self.byspec.get(id(sp))
        if node is None:
            node = Node(self, sp, len(self.nodes))
            self.nodes.append(node)
            self.byspec[id(sp)] = node
        return node.number

    def alias(self, sp, now):
        """the same lazy part, edited"""
        self.byspec[id(now)] = self.nodes[self.number(sp)]
        self.kept.append(now)

    def virtual(self, sp):
        number = self.number(sp)
        node = self.nodes[number]
        kw = {}
        if sp.get("d"):
            kw["type"] = awkward0.type.fromarray(S.build(S.strip(sp["c"])))
        if sp.get("pk") and self.cache is not None:
            kw["persistentkey"] = "key-%d" % number
        out = awkward0.VirtualArray(node, cache=self.cache, **kw)
        self.made.setdefault(number, []).append(weakref.ref(out))
        return out

    def event(self, kind, name):
        if kind == "gen":
            self.nodes[name].sp["loaded"][0] = 1
        if kind == "gen" and not self.quiet:
            refs = [r() for r in self.made.get(name, ())]
            alive = [a for a in refs if a is not None]
            if self.store is not None and alive and all(a.key in self.store for a in alive):
                raise Violation("C05:loaded-while-held", "lazy part {0} was loaded although the cache holds its data".format(name))
            if self.cfg.get("cache") in ("none", "dict") and not self.dropped and len(refs) == 1 and self.nodes[name].ncalls > 1:
                raise Violation("C05:loaded-twice", "lazy part {0} was loaded {1} times and nothing was dropped".format(name, self.nodes[name].ncalls))
        super(World05, self).event(kind, name)


# --------------------------------------------------------------------------- generation

def gen_lazy(rng, c, declared):
    return {"k": "vir", "d": int(declared), "pk": int(rng.chance(0.2)), "c": c}


def gen_tree(rng, n, depth, ser, dec):
    """dec: probability that a lazy part declares its type"""
    def sub(m, d):
        c = gen_tree(rng, m, d, ser, dec)
        return gen_lazy(rng, c, rng.chance(dec)) if c["k"] != "vir" and rng.chance(0.6) else c
    k = rng.wpick([("num", 2), ("str", 0.5), ("tab", 5), ("jag", 3), ("chk", 2.5), ("idx", 1.5), ("vir", 2)]) if depth > 0 else rng.wpick([("num", 3), ("str", 0.6)])
    if k == "num":
        return S.gen_leaf(rng, n, ser)
    if k == "str":
        return {"k": "str", "v": ["s%d" % ser.next() for _ in range(n)]}
    if k == "tab":
        return {"k": "tab", "cols": [[m, sub(n, depth - 1)] for m in ["x", "y", "z"][: rng.randrange(2, 4)]]}
    if k == "jag":
        counts = S.gen_counts(rng, n)
        return {"k": "jag", "counts": counts, "lead": 0, "tail": 0, "style": rng.pick(["offsets", "startsstops"]), "c": sub(sum(counts), depth - 1)}
    if k == "idx":
        if n == 0:
            return S.gen_leaf(rng, n, ser)
        cn = n + rng.randrange(0, 3)
        return {"k": "idx", "index": [rng.randrange(cn) for _ in range(n)], "c": sub(cn, depth - 1)}
    if k == "chk":
        sizes = S.split(rng, n)
        first = gen_tree(rng, sizes[0], depth - 1, ser, dec)
        while "chk" in S.kinds(first):
            first = gen_tree(rng, sizes[0], max(0, depth - 2), ser, dec)
        cs = [first] + [refill(first, m, rng, ser) for m in sizes[1:]]
        alld = rng.chance(dec)
        return {"k": "chk", "cs": [c if c["k"] == "vir" else gen_lazy(rng, c, alld) for c in cs], "known": rng.pick([0, 0, 1])}
    return gen_lazy(rng, gen_tree(rng, n, depth - 1, ser, dec), rng.chance(dec))


def refill(spec, n, rng, ser):
    if spec["k"] == "vir":
        return dict(spec, c=refill(spec["c"], n, rng, ser))
    if spec["k"] == "tab":
        return dict(spec, cols=[[m, refill(c, n, rng, ser)] for m, c in spec["cols"]])
    if spec["k"] == "jag":
        counts = S.gen_counts(rng, n)
        return dict(spec, counts=counts, c=refill(spec["c"], sum(counts), rng, ser))
    if spec["k"] == "idx":
        return dict(spec, index=[rng.randrange(n) for _ in range(n)], c=refill(spec["c"], n, rng, ser))
    return S.refill(spec, n, rng, ser)


# --------------------------------------------------------------------------- what an operation may load

def children(sp):
    return [c for _, c in S.children(sp)]


def everything(sp):
    out = [sp] if sp["k"] == "vir" else []
    for c in children(sp):
        out += everything(c)
    return out


def head(sp):
    """what may be loaded to learn type and length: lazy parts that do not declare them"""
    if sp["k"] == "vir":
        if not sp.get("d"):
            return [sp] + head(sp["c"])
        # while it is held, what it holds is asked
        return head(sp["c"]) if sp["loaded"][0] else []
    return [y for c in children(sp) for y in head(c)]


STRICT = [False]        # nothing was dropped: parts that declare no type, once looked at, are held


def inner(sp):
    """once it is loaded, its own length is asked of what it holds"""
    return head(sp["c"]) + inner(sp["c"]) if sp["k"] == "vir" else []


def need(op, sp, arg=None):
    """the lazy parts an operation on sp may load"""
    k = sp["k"]
    out = head(sp)
    if op == "meta":
        return out
    if k == "vir":
        # a declared type is checked against what was loaded
        return out + [sp] + need(op, sp["c"], arg) + (inner(sp) if sp.get("d") else [])
    if op == "read":
        return everything(sp)
    if k == "tab":
        if op == "col":
            for n, c in sp["cols"]:
                if n == arg:
                    out = out + [x for x in [c] if x["k"] == "vir"] + need("rows", c) + inner(c)
        elif op == "rowcol":
            for n, c in sp["cols"]:
                if n == arg[0]:
                    out = out + need("index", c, arg[1]) + inner(c)
        return out
    if k == "idx" and op == "rows":
        return out + need("rows", sp["c"])      # the content is taken at the index
    if k in ("jag", "idx"):
        if op == "col":
            return out + need("col", sp["c"], arg)
        if op == "index":
            return out + need("rows" if k == "jag" else "index", sp["c"], (sp["index"][arg] if k == "idx" and arg is not None and -len(sp["index"]) <= arg < len(sp["index"]) else None))
        if op == "rowcol":
            i = sp["index"][arg[1]] if k == "idx" and 0 <= arg[1] < len(sp["index"]) else None
            return out + (everything(sp["c"]) if i is None else need("rowcol", sp["c"], (arg[0], i)))
        return out
    if k == "chk":
        touched = range(len(sp["cs"]))
        lo = hi = None
        if op == "index" and arg is not None:
            lo, hi = arg, arg + 1
        elif op == "rowcol":
            lo, hi = arg[1], arg[1] + 1
        elif op == "rows" and arg is not None:
            lo, hi = arg
        bounds, pos = [], 0
        for c in sp["cs"]:
            bounds.append((pos, pos + S.length(c)))
            pos += S.length(c)
        if lo is not None:
            if hi <= lo or lo >= pos:
                lo, hi = 0, pos         # a slice of no rows still has to find out what kind of array it is
            touched = [i for i, (a, b) in enumerate(bounds) if (a < hi and lo < b) or (a == b and lo <= a <= hi)]
            if touched:
                # parts that declare nothing are looked at in order until the rows are found
                last = touched[-1]
                if op == "rows":
                    # also the size of the part where the slice stops
                    last += 1
                    while last < len(bounds) - 1 and bounds[last][0] == bounds[last][1]:
                        last += 1
            else:
                last = len(sp["cs"]) - 1
            if not any(b > a for a, b in bounds[: last + 1]):
                last = len(sp["cs"]) - 1
            if STRICT[0] and not sp.get("known"):
                out = [y for c in sp["cs"][: last + 1] for y in head(c)]
        for i in touched:
            c = sp["cs"][i]
            if op == "index":
                out = out + need("index", c, None if arg is None else arg - bounds[i][0])
            elif op == "rowcol":
                out = out + need("rowcol", c, (arg[0], arg[1] - bounds[i][0]))
            elif op == "rows":
                out = out + need("rows", c)
            else:
                out = out + need(op, c, arg)
        return out
    return out


def colspec(sp, name):
    k = sp["k"]
    if k == "tab":
        for n, c in sp["cols"]:
            if n == name:
                return c
        return None
    if k == "vir":
        return colspec(sp["c"], name)       # the column of what was loaded
    if k in ("jag", "idx"):
        c = colspec(sp["c"], name)
        return None if c is None else dict(sp, c=c)
    if k == "chk":
        cs = [colspec(c, name) for c in sp["cs"]]
        return None if any(c is None for c in cs) else dict(sp, cs=cs)
    return None


def iskind(sp, k):
    while sp["k"] == "vir":
        sp = sp["c"]
    return sp["k"] == k


class C05(Check):
    prop = "C05"
    quick_runs = 24000
    thorough_runs = 800000
    rule = "non-trivial: at least one lazy part was still not loaded after an operation on the structure that holds it; distinct by event-sequence hash"
    real = ["VirtualArray (type, length, ismaterialized, caching)", "Table, JaggedArray, IndexedArray, ChunkedArray over lazy parts", "awkward0.type"]
    stub = ["the cache (evictions on schedule)", "loaders, which log every call"]
    assumptions = ["lazy parts that declare no type may be loaded whenever a type or a length is needed",
                   "whichever rows of a lazy part are needed, that part is loaded whole; the bound is which parts, not how many rows"]
    required_probes = ["meta", "unloaded", "reload-after-evict", "ismaterialized", "edited"]

    def gen(self, rng, tier):
        ser = S.Serial()
        dec = rng.pick([1.0, 1.0, 0.7, 0.3])
        n = rng.randrange(0, 7)
        root = gen_tree(rng, n, rng.randrange(1, 4), ser, dec)
        if not S.virtuals(root):
            root = gen_lazy(rng, root, rng.chance(dec))
        ops = []
        for _ in range(rng.randrange(2, 12)):
            name = rng.wpick([("len", 2), ("type", 2), ("shape", 0.5), ("dtype", 0.5), ("columns", 1), ("slice", 3), ("mask", 1), ("fancy", 1.5), ("index", 2), ("col", 4), ("rowcol", 1.5),
                              ("cols", 1), ("read", 1.5), ("counts", 0.7), ("ismat", 2), ("evictall", 0.7), ("again", 1), ("calc", 3), ("edit", 0.8)])
            op = {"op": name, "on": rng.randrange(5), "i": rng.randrange(8), "c": rng.pick(["x", "x", "y", "z"])}
            if name == "slice":
                op["lo"], op["hi"] = rng.randrange(0, 5), rng.randrange(0, 8)
            elif name == "mask":
                op["bits"] = rng.randrange(256)
            elif name == "fancy":
                op["idx"] = [rng.randrange(8) for _ in range(rng.randrange(0, 5))]
            elif name == "calc":
                op["f"] = rng.pick(CALC)
            ops.append(op)
        if root["k"] == "tab" and any(op["op"] == "edit" for op in ops):
            root = gen_lazy(rng, root, rng.chance(max(dec, 0.6)))
        mode = rng.wpick([("none", 3), ("dict", 3), ("sim", 4), ("lru", 1)])
        cfg = {"cache": mode}
        if mode in ("sim", "lru"):
            p = rng.pick([0, 0.05, 0.2, 0.4])
            cfg["evict"] = [rng.pick([1, 1, 2, 3]) if rng.chance(p) else 0 for _ in range(30)] if p else []
        if mode == "lru":
            cfg["capacity"] = rng.randrange(1, 4)
        return {"cfg": cfg, "root": root, "ops": ops, "ids": rng.pick(["now", "now", "later", "never"])}

    def execute(self, plan, ctx):
        w = World05(ctx, plan["cfg"])
        sp = plan["root"]
        for v in everything(sp):
            v["loaded"] = [0]
            w.number(v)
        root = S.build(sp, w)
        self.allowed(ctx, w, "building", 0, [], ())
        pool = [(root, sp, S.norm(S.pyvalue(sp)), True, S.build(S.strip(sp)))]
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "evictall":
                if w.store is not None and w.store:
                    ctx.fault("evict")
                    w.store.clear()
                    w.dropped = True
                continue
            a, sp, v, exact, eager = pool[op.get("on", 0) % len(pool)]
            n = len(v)
            if not isinstance(a, awkward0.AwkwardArray):
                continue
            if name == "edit":
                self.edit(ctx, w, pool, op, step)
                continue
            enew = None
            try:
                enew = self.apply(eager, op, n)
            except Exception as err:
                ctx.log(step, name, "eager-raises", type(err).__name__)
                continue
            before = len(w.calls)
            STRICT[0] = plan["cfg"]["cache"] in ("none", "dict") and not w.dropped
            ctx.sched("op", step, name)
            got = expect = None
            new = None
            c = op.get("c", "x")
            arg = None
            if name in ("len", "type", "shape", "dtype", "counts", "columns"):
                if name == "counts" and not (sp["k"] == "jag"):
                    continue
                may = need("meta", sp)
                if name in ("shape", "dtype") and sp["k"] != "vir":
                    continue
                if name == "columns":
                    if sp["k"] != "tab":
                        continue
                    got, expect = list(a.columns), [m for m, _ in sp["cols"]]
                elif name == "len":
                    got, expect = len(a), n
                elif name == "counts":
                    got, expect = S.norm(a.counts), [len(x) for x in v]
                elif name == "type":
                    a.type
                else:
                    getattr(a, name)
                ctx.probe("meta")
            elif name == "ismat":
                if not isinstance(a, awkward0.VirtualArray):
                    continue
                may = []
                flag = a.ismaterialized
                ctx.log("ismaterialized", flag)
                ctx.probe("ismaterialized")
                if plan["cfg"]["cache"] in ("none", "dict") and not any(o["op"] == "evictall" for o in plan["ops"]) and exact:
                    got, expect = bool(flag), w.nodes[w.number(sp)].ncalls > 0
            elif name == "slice":
                lo, hi = op["lo"], op["hi"]
                may = need("rows", sp, (lo, min(hi, n)) if exact else None)
                got, expect = a[lo:hi], v[lo:hi]
                new = sp
            elif name == "mask":
                m = [bool((op["bits"] >> i) & 1) for i in range(n)]
                may = need("rows", sp)
                got, expect = a[numpy.array(m, dtype=bool)], [x for x, b in zip(v, m) if b]
                new = sp
            elif name == "fancy":
                idx = [i % n for i in op["idx"]] if n else []
                may = need("rows", sp)
                got, expect = a[numpy.array(idx, dtype="i8")], [v[i] for i in idx]
                new = sp
            elif name == "index":
                if n == 0:
                    continue
                i = op["i"] % n
                may = need("index", sp, i if exact else None)
                a[i]
            elif name == "col":
                new = colspec(sp, c)
                if new is None:
                    continue
                may = need("col", sp, c)
                got = a[c]
                expect = column(v, c)
                exact = exact and sp["k"] == "tab"
            elif name == "rowcol":
                if colspec(sp, c) is None or n == 0 or not (iskind(sp, "tab") or (iskind(sp, "chk") and exact)):
                    continue
                i = op["i"] % n
                may = need("rowcol", sp, (c, i)) if exact else need("read", sp)
                if not exact and sp["k"] == "tab":
                    may = need("col", sp, c) + everything(colspec(sp, c))
                a[i][c]
            elif name == "cols":
                if sp["k"] != "tab":
                    continue
                names = [m for m, _ in sp["cols"]][: 1 + op["i"] % 2]
                may = need("meta", sp)
                got = a[names]
                new = dict(sp, cols=[[m, x] for m, x in sp["cols"] if m in names])
                expect = [dict((m, r[m]) for m in names) for r in v]
            elif name == "read":
                may = everything(sp)
                got, expect = S.norm(a), v
            elif name == "calc":
                # what is held is not loaded again in the middle of anything (the loader sees to that)
                may = everything(sp)
                OPS[op["f"]][0](a, op, n)
                ctx.probe("calc")
            elif name == "again":
                # what was read and is held is not loaded again
                S.norm(a)
                if plan["cfg"]["cache"] in ("none", "dict") and S.virtuals(sp):
                    before = len(w.calls)
                    may = []
                    if isinstance(a, awkward0.VirtualArray) or sp["k"] in ("tab", "jag", "idx", "chk"):
                        S.norm(a)
                else:
                    may = everything(sp)
            else:
                raise PlanInvalid("op")
            self.allowed(ctx, w, "step {0}: {1}".format(step, dict(op)), before, may, w.calls[before:])
            ctx.checks += 1
            if name in ("len", "counts", "read", "columns", "ismat") and not S.same(got, expect):
                raise Violation("C05:value", "step {0}: {1} gives {2}, expected {3}".format(step, name, S.show(got), S.show(expect)))
            left = sum(1 for x in everything(sp) if w.nodes[w.number(x)].ncalls == 0) if name not in ("read", "again") and S.virtuals(sp) else 0
            if left:
                ctx.probe("unloaded")
                ctx.nontrivial = True
            if w.calls[before:] and max(w.calls.count(x) for x in set(w.calls[before:])) > 1:
                ctx.probe("reload-after-evict")
            if new is not None and len(pool) < 5:
                pool.append((got, new, expect, exact and name == "col" and sp["k"] == "tab", enew))
            a = got = expect = enew = eager = None
        w.quiet = True
        try:
            S.norm(pool[0][4])
        except Exception:
            return
        a = pool[0][0]
        ctx.checks += 1
        got = S.norm(a)
        if not S.same(got, pool[0][2]):
            raise Violation("C05:value", "at the end the array reads {0}, expected {1}".format(S.show(got), S.show(pool[0][2])))

    def edit(self, ctx, w, pool, op, step):
        """a lazy table is given a column; its type is still known without loading it"""
        k = 0           # what comes from it may be a part of it
        a, sp, v, exact, eager = pool[k]
        if sp["k"] != "vir" or sp["c"]["k"] != "tab" or not isinstance(a, awkward0.VirtualArray):
            return
        name = "w%d" % (op["i"] % 2)
        new = [(7 * step + i) % 100 for i in range(len(v))]
        eager[name] = numpy.array(new, dtype="i8")
        before = len(w.calls)
        ctx.sched("edit", step, name)
        a[name] = numpy.array(new, dtype="i8")
        self.allowed(ctx, w, "step {0}: setting a column".format(step), before, everything(sp), w.calls[before:])
        cols = [[m, x] for m, x in sp["c"]["cols"] if m != name] + [[name, {"k": "num", "dt": "i8", "v": new}]]
        now = dict(sp, c=dict(sp["c"], cols=cols))
        w.alias(sp, now)
        pool[k] = a, now, [dict(r, **{name: x}) for r, x in zip(v, new)], exact, eager
        ctx.probe("edited")

    @staticmethod
    def apply(a, op, n):
        """the same operation on the same array without laziness; what this refuses is not asked of the lazy one"""
        name, c = op["op"], op.get("c", "x")
        if name == "slice":
            return a[op["lo"]:op["hi"]]
        elif name == "mask":
            return a[numpy.array([bool((op["bits"] >> i) & 1) for i in range(n)], dtype=bool)]
        elif name == "fancy":
            return a[numpy.array([i % n for i in op["idx"]] if n else [], dtype="i8")]
        elif name == "index":
            return a[op["i"] % n] if n else None
        elif name == "col":
            return a[c]
        elif name == "rowcol":
            return a[op["i"] % n][c] if n else None
        elif name == "calc":
            if op.get("f") not in CALC:
                raise PlanInvalid("calc")
            return OPS[op["f"]][0](a, op, n)
        elif name == "cols":
            return a[[m for m in list(a.columns)][: 1 + op["i"] % 2]]
        elif name in ("read", "again"):
            return S.norm(a) and None
        elif name in ("counts", "columns") or (name in ("shape", "dtype") and isinstance(a, awkward0.AwkwardArray)):
            return getattr(a, name) is None
        return None

    def allowed(self, ctx, w, what, before, may, calls):
        ctx.checks += 1
        ok = set(w.number(x) for x in may if id(x) in w.byspec)
        bad = [x for x in calls if x not in ok]
        if before == 0 and what == "building" and w.calls:
            bad = list(w.calls)
        if bad:
            node = w.nodes[bad[0]]
            raise Violation("C05:loaded-needlessly", "{0} loaded the {1} part {2} ({3}), which it does not need".format(
                what, "typed" if node.sp.get("d") else "untyped", bad[0], S.show(S.strip(node.sp), 100)))


def column(v, c):
    if isinstance(v, dict):
        return v[c]
    return [column(x, c) for x in v]


CHECK = C05()

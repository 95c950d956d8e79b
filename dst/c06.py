"""C06: a lazy array's declared type and length are enforced on every load."""
import gc

import numpy

import awkward0
import awkward0.type

from dst import spec as S
from dst.c01 import C01, gen_cfg
from dst.core import PlanInvalid, Rng, SimFault, Violation, short
from dst.lazy import OPS, World, gen_op

KINDS = ("num", "reg", "jag", "tab", "msk", "idx", "str", "uni", "chk")
NOFAULT = ("valid", "repr")
# what these give does not depend on the class that holds the data
READS = ("all", "tolist", "len", "index", "iterpart", "slice", "fancy", "mask", "rowcol", "colrow", "col", "copy")
# these compare arrays, and numpy's comparisons try once more, the other way around, when something raised in between
RETRIES = ("argmax", "argmin", "argpick", "cut", "cmp")


# --------------------------------------------------------------------------- the type model

def tform(sp):
    """the high-level type of one item, from the description alone"""
    k = sp["k"]
    if k == "num":
        return ("num", sp["dt"])
    if k == "reg":
        # numpy's own dimensions nest without a length of their own: the item type is that of the scalars
        return ("reg", sp["w"], sp["dt"])
    if k == "str":
        return ("str",)
    if k == "jag":
        return ("list", tform(sp["c"]))
    if k == "tab":
        return ("table", tuple(sorted((n, tform(c)) for n, c in sp["cols"])))
    if k in ("msk", "bmsk", "imsk"):
        return ("option", tform(sp["c"]))
    if k in ("idx", "vir"):
        return tform(sp["c"])
    if k == "uni":
        return ("union", tuple(sorted(tform(c) for c in sp["cs"])))
    if k == "chk":
        for c in sp["cs"]:
            if S.length(c) > 0:
                return tform(c)
        return ("num", "f8")
    raise PlanInvalid("kind")


def accepts(declared, got):
    """data may be less maskable than declared, nothing else"""
    if declared[0] == "option":
        return (got[0] == "option" and accepts(declared[1], got[1])) or accepts(declared[1], got)
    if declared[0] != got[0]:
        return False
    if declared[0] == "list":
        return accepts(declared[1], got[1])
    if declared[0] == "table":
        a, b = dict(declared[1]), dict(got[1])
        return set(a) == set(b) and all(accepts(a[n], b[n]) for n in a)
    if declared[0] == "union":
        a, b = list(declared[1]), list(got[1])
        if len(a) != len(b):
            return False
        if not a:
            return True
        return any(accepts(a[0], y) and accepts(("union", tuple(a[1:])), ("union", tuple(b[:i] + b[i + 1:]))) for i, y in enumerate(b))
    return declared == got


def manual(t, shared):
    """the declaration written by hand; equal parts may be one shared object"""
    T = awkward0.type
    if t in shared:
        return shared[t]
    if t[0] == "num":
        out = S.dtype(t[1])
    elif t[0] == "reg":
        out = T.ArrayType(t[1], S.dtype(t[2]))
    elif t[0] == "str":
        out = str
    elif t[0] == "list":
        out = T.ArrayType(numpy.inf, manual(t[1], shared))
    elif t[0] == "table":
        out = T.TableType(**dict((n, manual(x, shared)) for n, x in t[1]))
    elif t[0] == "option":
        out = T.OptionType(manual(t[1], shared))
    elif t[0] == "union":
        out = T.UnionType(*[manual(x, shared) for x in t[1]])
    if shared.get("on"):
        shared[t] = out
    return out


def empties(sp):
    return any(S.length(c) == 0 or empties(c) for c in ([x for _, x in S.children(sp)])) or (sp["k"] == "chk" and S.length(sp) == 0)


# --------------------------------------------------------------------------- misbehaving sources

def twist(sp, rng, ser):
    """another array, usually of another type or length, sometimes the same data laid out differently"""
    k = sp["k"]
    n = S.length(sp)
    how = rng.pick(["len", "len", "leaf", "leaf", "wrap", "same", "same", "deep", "deep", "col"])
    if how == "len":
        m = max(0, n + rng.pick([-1, 1, 2]))
        try:
            return S.refill(sp, m, rng, ser)
        except (AssertionError, ValueError, IndexError):
            return S.gen_leaf(rng, m, ser)
    if how == "leaf":
        return S.gen_leaf(rng, n, ser)
    if how == "wrap":
        counts = [1] * n
        return {"k": "jag", "counts": counts, "lead": 0, "tail": 0, "style": "offsets", "c": S.strip(sp)}
    if how == "same":
        if n and rng.chance(0.5) and S.kinds(S.strip(sp)) <= {"num", "reg", "str", "jag"}:
            return {"k": "idx", "index": list(range(n)), "c": sp}
        if rng.chance(0.3) and tform(S.strip(sp))[0] != "option":
            return {"k": "msk", "m": [False] * n, "when": True, "c": S.strip(sp)}
        if k == "tab" and rng.chance(0.5):
            return {"k": "tab", "cols": list(reversed(sp["cols"]))}
        return dict(sp)
    if how == "col" and k == "tab":
        cols = [[m, c] for m, c in sp["cols"]]
        what = rng.pick(["drop", "add", "rename"])
        if what == "drop" and len(cols) > 1:
            cols.pop(rng.randrange(len(cols)))
        elif what == "add":
            cols.append(["w", S.gen_leaf(rng, n, ser)])
        else:
            cols[rng.randrange(len(cols))][0] = "w"
        return {"k": "tab", "cols": cols}
    # change something inside
    out = dict(sp)
    if k in ("jag", "msk", "idx", "vir"):
        c = S.strip(sp["c"])
        m = S.length(c)
        if c["k"] == "num":
            c = S.gen_leaf(rng, m, ser)
        else:
            c = twist(c, rng, ser)
        if S.length(c) < m:
            return S.gen_leaf(rng, n, ser, "i2")
        out["c"] = c
        if k == "jag":
            out["tail"] = 0
        return out
    if k == "tab":
        cols = [[m, c] for m, c in sp["cols"]]
        i = rng.randrange(len(cols))
        cols[i][1] = twist(cols[i][1], rng, ser)
        return {"k": "tab", "cols": cols}
    if k == "uni":
        cs = list(sp["cs"])
        i = rng.randrange(len(cs))
        m = S.length(cs[i])
        cs[i] = S.gen_leaf(rng, m, ser, rng.pick(["i8", "f8", "u1"])) if rng.chance(0.6) else {"k": "str", "v": ["q%d" % j for j in range(m)]}
        return dict(sp, cs=cs)
    return S.gen_leaf(rng, n, ser, "i2")


class World06(World):
    """loaders that hand out a planned sequence of versions of their data"""

    def __init__(self, ctx, cfg):
        super(World06, self).__init__(ctx, cfg)
        self.other = False      # some source has handed out the same data in another layout
        self.bad = []           # nodes that handed out data of another type during the current operation

    def virtual(self, sp):
        node = self.byspec.get(id(sp))
        if node is None:
            node = Source(self, sp, len(self.nodes))
            self.nodes.append(node)
            self.byspec[id(sp)] = node
        kw = {"type": node.declared()}
        if sp.get("pk") and self.cache is not None:
            kw["persistentkey"] = "key-%d" % node.number
        return awkward0.VirtualArray(node, cache=None if sp.get("nocache") else self.cache, **kw)


class Source(object):
    def __init__(self, w, sp, number):
        self.w, self.sp, self.number, self.ncalls = w, sp, number, 0
        self.form = (tform(sp["c"]), S.length(sp["c"]))

    def declared(self):
        if self.sp.get("decl") == 1:
            return awkward0.type.fromarray(S.build(S.strip(self.sp["c"])))
        return awkward0.type.ArrayType(self.form[1], manual(self.form[0], {"on": self.sp.get("decl") == 2}))

    def __call__(self):
        self.w.calls.append(self.number)
        self.w.event("gen", self.number)
        versions = self.sp.get("versions") or []
        v = versions[self.ncalls] if self.ncalls < len(versions) else None
        self.ncalls += 1
        sp = self.sp["c"] if v is None else v
        if v is not None:
            if not accepts(self.form[0], tform(v)) or S.length(v) != self.form[1]:
                self.w.bad.append(self.number)
                self.w.ctx.fault("wrong-type" if S.length(v) == self.form[1] else "wrong-length")
                self.w.ctx.sched("WRONG", self.number)
                sp = S.strip(sp)
            elif S.pyvalue(v) != S.pyvalue(self.sp["c"]):
                sp = self.sp["c"]
            else:
                self.w.ctx.probe("other-layout")
                self.w.other = True
                sp = S.strip(sp)
        return S.build(sp, self.w)

    def __repr__(self):
        return "<source {0}>".format(self.number)


class C06(C01):
    prop = "C06"
    quick_runs = 24000
    thorough_runs = 900000
    rule = "non-trivial: a source handed out data of another type or length than declared; distinct by event-sequence hash"
    real = ["VirtualArray.materialize, awkward0.type comparison", "all array classes around and inside the lazy arrays"]
    stub = ["sources that change type or length between loads, or fail", "the cache"]
    assumptions = ["data that are less maskable than declared match the declaration (the library's rule)", "all callables are one type (the library's rule for object types)",
                   "declarations do not involve chunks or lists without any element, whose type the library cannot see"]
    required_probes = ["wrong-type", "wrong-length", "other-layout", "refused", "retried"]

    def gen(self, rng, tier):
        ser = S.Serial()
        roots = []
        for _ in range(rng.randrange(1, 3)):
            for _ in range(20):
                sp = S.gen(rng, rng.randrange(1, 6), rng.randrange(0, 4), ser, allow=[k for k in KINDS if k != "reg" or rng.chance(0.2)], virtual=rng.pick([0.1, 0.3, 0.5]))
                if sp["k"] != "vir" and (not S.virtuals(sp) or rng.chance(0.4)):
                    sp = {"k": "vir", "c": sp}
                if not empties(sp):
                    break
            else:
                sp = {"k": "vir", "c": S.gen_leaf(rng, 3, ser)}
            for _, v in S.virtuals(sp):
                v["decl"] = rng.randrange(3)
                v["pk"] = int(rng.chance(0.2))
                v["nocache"] = int(rng.chance(0.15))
                if rng.chance(0.75):
                    v["versions"] = [None if rng.chance(0.35) else self.version(rng, v["c"], ser) for _ in range(rng.randrange(1, 5))]
            roots.append(sp)
        ops = []
        for _ in range(rng.randrange(2, 10)):
            if rng.chance(0.2):
                ops.append({"op": rng.pick(["evictall", "gc"])})
                continue
            op = gen_op(rng)
            if rng.chance(0.15):
                op["fault"] = {"exc": rng.pick(["io", "key", "value", "index"]), "at": rng.randrange(3), "kinds": ["gen"], "times": 1}
            ops.append(op)
        cfg = gen_cfg(rng)
        return {"cfg": cfg, "roots": roots, "ops": ops, "ids": rng.pick(["now", "now", "later", "never"])}

    @staticmethod
    def version(rng, c, ser):
        for _ in range(8):
            v = S.strip(twist(c, rng, ser))
            try:
                S.pyvalue(v)
            except PlanInvalid:
                continue
            if not empties(v):
                try:
                    C06.sane(v)
                except PlanInvalid:
                    continue
                return v
        return None

    @staticmethod
    def sane(v):
        try:
            tform(v)
            S.norm(S.build(S.strip(v)))
        except Exception:
            raise PlanInvalid("version")

    def execute(self, plan, ctx):
        w = World06(ctx, plan["cfg"])
        pool = []
        for sp in plan["roots"]:
            v = S.norm(S.pyvalue(sp))
            pool.append((S.build(sp, w), S.build(S.strip(sp)), v, len(v)))
        for node in [x for sp in plan["roots"] for _, x in S.virtuals(sp)]:
            for v in node.get("versions") or []:
                if v is not None:
                    self.sane(v)
        nroots = len(pool)
        flags = tuple(any(k in S.kinds(sp) for sp in plan["roots"]) for k in ("bmsk", "tab", "reg"))
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                elif isinstance(w.cache, dict):
                    w.cache.clear()
                continue
            if name == "gc":
                gc.collect()
                continue
            if name not in OPS:
                raise PlanInvalid("op")
            if name in NOFAULT or name in ("type", "columns"):
                continue
            lazy, eager, v, n = pool[op.get("on", 0) % len(pool)]
            w.bad = []
            want = self.want(ctx, op, lazy, eager, v, n, step, *flags)
            if want is None:
                continue
            fcn, eres, enorm, known, expect = want
            ctx.sched("op", step, name)
            for attempt in range(6):
                w.bad = []
                err = lres = None
                if attempt == 0 and op.get("fault"):
                    w.arm(op["fault"])
                try:
                    lres = fcn(lazy, op, n)
                    lnorm = S.norm(lres)
                except PlanInvalid:
                    raise
                except Exception as e:
                    err = e
                fired = w.disarm()
                ctx.checks += 1
                ctx.log(step, name, "attempt", attempt, "bad", len(w.bad), "raised " + type(err).__name__ if err is not None else S.show(lnorm, 200))
                if w.bad:
                    ctx.nontrivial = True
                    if err is None and name in RETRIES and S.same(lnorm, enorm):
                        break
                    if err is None:
                        raise Violation("C06:accepted", "operation {0}: lazy part {1} was given {2}, which is not of its declared type and length, and nothing was raised; the result is {3}".format(
                            self.shown(op), w.bad[0], "data of another type or length", S.show(lnorm)))
                    ctx.probe("refused")
                    err = None
                    continue
                if fired:
                    err = None
                    ctx.probe("retried")
                    continue
                if w.other and (name not in READS or not known):
                    lres = None         # classes differ in what else they can do
                    break
                if err is not None:
                    raise Violation("C06:refused", "operation {0}, attempt {1}: every source gave data of the declared type, but it raised {2}".format(self.shown(op), attempt, short(err)))
                if not S.same(lnorm, enorm) or (known and not S.same(lnorm, expect)):
                    raise Violation("C06:value", "operation {0}, attempt {1}: expected {2}, got {3}".format(self.shown(op), attempt, S.show(enorm), S.show(lnorm)))
                if attempt:
                    ctx.probe("retried")
                break
            else:
                lres = None
            if lres is not None and hasattr(lres, "__len__") and not isinstance(lres, (str, bytes, dict, tuple)) and len(pool) < 6 and name not in ("all", "tolist", "columns", "numpy"):
                if type(lres).__module__.startswith(("awkward0", "numpy")) and type(lres).__name__ != "Row":
                    pool.append((lres, eres, lnorm, len(lnorm)))
        for k in range(nroots):
            lazy, eager, v, n = pool[k]
            try:
                S.norm(eager)
            except Exception:
                ctx.probe("eager-unreadable")
                continue
            for attempt in range(8):
                w.bad = []
                try:
                    got = S.norm(lazy)
                except PlanInvalid:
                    raise
                except Exception as err:
                    if not w.bad:
                        raise Violation("C06:refused", "reading root {0} at the end raised {1} although the sources gave data of the declared type".format(k, short(err)))
                    continue
                ctx.checks += 1
                if w.bad:
                    raise Violation("C06:accepted", "reading root {0} at the end: data of another type were handed out".format(k))
                if not S.same(got, v):
                    raise Violation("C06:final", "root {0} ends as {1}, expected {2}".format(k, S.show(got), S.show(v)))
                break


CHECK = C06()

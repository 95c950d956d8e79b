"""Simulated world of lazily loaded arrays: loaders, caches, evictions, faults.

The code under test sees ordinary callables and an ordinary mutable mapping;
every call into them is an event the simulator logs, and at which the plan may
evict entries or raise.
"""
import gc
from collections import OrderedDict

import numpy

import awkward0
import awkward0.type
from dst import spec as S
from dst.core import FAULTS, PlanInvalid, SimFault, SimInterrupt, Violation, isinjected, short


class EvictPlan(object):
    """a finite list of decisions consumed at cache events; exhausted = never"""
    def __init__(self, decisions):
        self.d = list(decisions)
        self.i = 0

    def next(self):
        if self.i < len(self.d):
            self.i += 1
            return self.d[self.i - 1]
        return 0


class SimCache(object):
    """mutable mapping with scheduled evictions, optional LRU capacity and faults"""
    def __init__(self, world, decisions=(), capacity=None):
        self.w = world
        self.data = OrderedDict()
        self.plan = EvictPlan(decisions)
        self.capacity = capacity
        self.names = {}
        self.nnames = 0

    # names are stable (never ids)
    def _name(self, key):
        for k, n in self.names.items():
            if k == key:
                return n
        n = "k%d" % self.nnames
        self.nnames += 1
        self.names[key] = n
        return n

    def _evict(self, key, when):
        d = self.plan.next()
        if d == 0:
            return
        if d == 1:
            victims = [key] if key in self.data else []
        elif d == 2:
            victims = list(self.data)
        else:
            victims = list(self.data)[:1]
        names = ",".join(self._name(v) for v in victims)
        for v in victims:
            self.data.pop(v, None)      # freeing a value may free lazy arrays, which delete their own entries
        if victims:
            self.w.ctx.fault("evict")
            self.w.ctx.sched("evict", when, names)

    def __getitem__(self, key):
        hash(key)
        self._evict(key, "before-get")
        self.w.event("cacheget", self._name(key))
        if key not in self.data:
            self.w.ctx.log("miss", self._name(key))
            raise KeyError(key)
        out = self.data[key]
        self.data.move_to_end(key)
        return out

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __setitem__(self, key, value):
        hash(key)
        self.w.event("cacheset", self._name(key))
        self.data[key] = value
        self.data.move_to_end(key)
        if self.capacity is not None:
            while len(self.data) > self.capacity:
                k = next(iter(self.data))
                name = self._name(k)
                self.data.pop(k)
                self.w.ctx.fault("evict")
                self.w.ctx.sched("evict", "capacity", name)
        self._evict(key, "after-set")

    def __delitem__(self, key):
        self.w.ctx.log("cachedel", self._name(key))
        self.names.pop(key, None)       # the key may belong to another array from now on
        del self.data[key]

    def __contains__(self, key):
        hash(key)
        self._evict(key, "before-contains")
        return key in self.data

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(list(self.data))

    def keys(self):
        return list(self.data)

    def evict_all(self):
        if self.data:
            self.w.ctx.fault("evict")
        self.w.ctx.sched("evict-all", len(self.data))
        self.data.clear()


class BareCache(object):
    """the documented minimum of a cache: item access, assignment and deletion"""
    def __init__(self, sim):
        self._get, self._set, self._del = sim.__getitem__, sim.__setitem__, sim.__delitem__

    def __getitem__(self, key):
        return self._get(key)

    def __setitem__(self, key, value):
        self._set(key, value)

    def __delitem__(self, key):
        self._del(key)


class World(object):
    """one simulated process with lazy arrays"""
    CACHE = SimCache

    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.cfg = cfg
        self.armed = None            # (countdown, kinds, exception name) while an operation runs
        self.fired = None
        self.calls = []              # loader calls, by node number
        self.nodes = []
        self.byspec = {}
        self.depth = 0
        mode = cfg.get("cache", "none")
        if mode == "none":
            self.cache = None
        elif mode == "sim":
            self.cache = self.CACHE(self, cfg.get("evict", ()))
        elif mode == "lru":
            self.cache = self.CACHE(self, cfg.get("evict", ()), capacity=max(1, cfg.get("capacity", 1)))
        elif mode == "dict":
            self.cache = {}
        elif mode == "bare":
            # no more than the three methods a cache must have
            sim = self.CACHE(self, cfg.get("evict", ()))
            self.cache = BareCache(sim)
            self.cache.evict_all = sim.evict_all
        elif mode == "drop":
            # a cache that never holds anything
            self.cache = self.CACHE(self, (), capacity=None)
            self.cache.capacity = 0
        else:
            raise PlanInvalid("cache mode")

    # every call out of the library passes here: the injection point
    def event(self, kind, name):
        self.ctx.sched(kind, name)
        if self.armed is not None and kind in self.armed[1]:
            n, kinds, exc, times = self.armed
            if n <= 0:
                self.armed = (0, kinds, exc, times - 1) if times > 1 else None
                err = FAULTS[exc]("injected")
                self.fired = (kind, name, err)
                self.ctx.fault(kind + ":" + exc)
                self.ctx.sched("FAULT", kind, name, exc)
                raise err
            self.armed = (n - 1, kinds, exc, times)

    def arm(self, fault):
        if fault:
            exc = fault.get("exc", "io")
            if exc not in FAULTS:
                raise PlanInvalid("exc")
            self.armed = (fault.get("at", 0), tuple(fault.get("kinds", ["gen", "cacheget", "cacheset"])), exc, fault.get("times", 1))
        self.fired = None

    def disarm(self):
        self.armed = None
        fired, self.fired = self.fired, None
        return fired

    def virtual(self, sp):
        # a nested lazy node built again by its parent's loader is the same source again
        node = self.byspec.get(id(sp))
        if node is None:
            node = Node(self, sp, len(self.nodes))
            self.nodes.append(node)
            self.byspec[id(sp)] = node
        number = node.number
        kw = {}
        opt = (self.cfg.get("opts") or [0])
        o = opt[number % len(opt)]
        if o & 1:
            kw["type"] = awkward0.type.fromarray(S.build(S.strip(sp["c"])))
        if o & 2 and self.cache is not None:
            kw["persistentkey"] = "key-%d" % number
        if o & 4:
            kw["nbytes"] = 1000 + number
        node.typed = "type" in kw
        cache = None if (o & 8) else self.cache
        node.cached = cache is not None
        style = (o >> 4) & 3
        if style == 1:
            return awkward0.VirtualArray(node.load1, (number,), cache=cache, **kw)
        elif style == 2:
            return awkward0.VirtualArray(node.load2, number, {"flag": True}, cache=cache, **kw)
        return awkward0.VirtualArray(node, cache=cache, **kw)

class Node(object):
    """one lazily loaded array: its loader"""
    def __init__(self, world, sp, number):
        self.w, self.sp, self.number = world, sp, number
        self.ncalls = 0
        self.key = None

    def __call__(self):
        return self._load()

    def load1(self, number):
        if number != self.number:
            raise Violation("C01:wrong-arguments", "loader {0} was called with {1}".format(self.number, number))
        return self._load()

    def load2(self, number, flag=None):
        if number != self.number or flag is not True:
            raise Violation("C01:wrong-arguments", "loader {0} was called with {1}, {2}".format(self.number, number, flag))
        return self._load()

    def _load(self):
        self.w.calls.append(self.number)
        self.ncalls += 1
        self.w.event("gen", self.number)
        self.w.depth += 1
        if self.w.depth > 50:
            raise Violation("runaway-loading", "loaders nest without bound")
        try:
            out = S.build(self.sp["c"], self.w) if self.w.cfg.get("renest", 1) else S.build(S.strip(self.sp["c"]))
        finally:
            self.w.depth -= 1
        return out

    def __repr__(self):
        return "<loader {0}>".format(self.number)


# --------------------------------------------------------------------------- operations
# each: name -> (function(array, op), model(list, op) or None)

def _idx(op, n):
    return [i % n for i in op.get("idx", [])] if n else []


def _mask(op, n):
    bits = op.get("bits", 0)
    return [bool((bits >> i) & 1) for i in range(n)]


def _slice(op):
    return slice(op.get("lo"), op.get("hi"), op.get("st") or None)


class NotHere(Exception):
    """the operation does not apply to this array"""


def m_col(v, c):
    if isinstance(v, dict):
        if c not in v:
            raise NotHere()
        return v[c]
    if isinstance(v, list):
        return [m_col(x, c) for x in v]
    if v is None:
        return None
    raise NotHere()


def op_index(a, op, n):
    i = op.get("i", 0)
    return a[i]


def mo_index(v, op, n):
    i = op.get("i", 0)
    return v[i]


def op_iterpart(a, op, n):
    out = []
    it = iter(a)
    for _ in range(op.get("i", 0) % (n + 2)):
        try:
            out.append(next(it))
        except StopIteration:
            break
    return out


OPS = {
    "all": (lambda a, op, n: a, lambda v, op, n: v),
    "tolist": (lambda a, op, n: a.tolist(), lambda v, op, n: v),
    "len": (lambda a, op, n: len(a), lambda v, op, n: n),
    "index": (op_index, mo_index),
    "iterpart": (op_iterpart, lambda v, op, n: v[: op.get("i", 0) % (n + 2)]),
    "slice": (lambda a, op, n: a[_slice(op)], lambda v, op, n: v[_slice(op)]),
    "fancy": (lambda a, op, n: a[numpy.array(_idx(op, n), dtype="i8")], lambda v, op, n: [v[i] for i in _idx(op, n)]),
    "negfancy": (lambda a, op, n: a[numpy.array([i - n for i in _idx(op, n)], dtype="i8")], lambda v, op, n: [v[i] for i in _idx(op, n)]),
    "fancylist": (lambda a, op, n: a[_idx(op, n)] if _idx(op, n) else None, lambda v, op, n: [v[i] for i in _idx(op, n)] or None),
    "mask": (lambda a, op, n: a[numpy.array(_mask(op, n), dtype=bool)], lambda v, op, n: [x for x, b in zip(v, _mask(op, n)) if b]),
    "col": (lambda a, op, n: a[op.get("c", "x")], lambda v, op, n: m_col(v, op.get("c", "x"))),
    "cols": (lambda a, op, n: a[[op.get("c", "x")]], lambda v, op, n: None),
    "attr": (lambda a, op, n: getattr(a, op.get("c", "x")), lambda v, op, n: m_col(v, op.get("c", "x"))),
    "add1": (lambda a, op, n: a + 1, None),
    "neg": (lambda a, op, n: -a, None),
    "selfmul": (lambda a, op, n: a * a, None),
    "sum": (lambda a, op, n: a.sum(), None),
    "max": (lambda a, op, n: a.max(), None),
    "min": (lambda a, op, n: a.min(), None),
    "any": (lambda a, op, n: a.any(), None),
    "counts": (lambda a, op, n: a.counts, None),
    "flatten": (lambda a, op, n: a.flatten(), None),
    "argmax": (lambda a, op, n: a.argmax(), None),
    "argmin": (lambda a, op, n: a.argmin(), None),
    "boolmask": (lambda a, op, n: a.boolmask(maskedwhen=bool(op.get("i", 0) % 2)), None),
    "pad": (lambda a, op, n: a.pad(2), None),
    "padclip": (lambda a, op, n: a.pad(1, clip=True), None),
    "pairs": (lambda a, op, n: a.pairs(), None),
    "distincts": (lambda a, op, n: a.distincts(), None),
    "choose": (lambda a, op, n: a.choose(2), None),
    "argpairs": (lambda a, op, n: a.argpairs(), None),
    "columns": (lambda a, op, n: list(a.columns), None),
    "type": (lambda a, op, n: S.typeform(a.type), None),
    "dtype": (lambda a, op, n: str(a.dtype), None),
    "shape": (lambda a, op, n: tuple(a.shape), None),
    "copy": (lambda a, op, n: a.copy(), lambda v, op, n: v),
    "zeros": (lambda a, op, n: a.zeros_like(), None),
    "ones": (lambda a, op, n: a.ones_like(), None),
    "concat": (lambda a, op, n: a.concatenate([a]), None),
    "astype": (lambda a, op, n: a.astype("f8"), None),
    "ismasked": (lambda a, op, n: a.ismasked, None),
    "numpy": (lambda a, op, n: numpy.array(a), None),
    "unzip": (lambda a, op, n: a.unzip(), None),
    "valid": (lambda a, op, n: a.valid(), None),
    "regular": (lambda a, op, n: a.regular(), None),
    "ufuncpair": (lambda a, op, n: numpy.add(a, a), None),
    "cmp": (lambda a, op, n: a > 3, None),
    "repr": (lambda a, op, n: len(repr(a)) > 0, None),
    "colk": (lambda a, op, n: a[:, op.get("i", 0)], None),
    "colsl": (lambda a, op, n: a[:, :2], None),
    "cut": (lambda a, op, n: a[a > 5], None),
    "argpick": (lambda a, op, n: a[a.argmax()], None),
    "rowcol": (lambda a, op, n: a[op.get("i", 0)][op.get("c", "x")], lambda v, op, n: m_col(v[op.get("i", 0)], op.get("c", "x"))),
    "colrow": (lambda a, op, n: a[op.get("c", "x")][op.get("i", 0)], lambda v, op, n: m_col(v, op.get("c", "x"))[op.get("i", 0)]),
    "prod": (lambda a, op, n: a.prod(), None),
    "all_": (lambda a, op, n: a.all(), None),
    "argdistincts": (lambda a, op, n: a.argdistincts(), None),
    "argcross": (lambda a, op, n: a.argcross(a), None),
    "where": (lambda a, op, n: numpy.sqrt(a * a), None),
    "eager+lazy": (lambda a, op, n: op["_eager"] + a, None),
    "lazy+eager": (lambda a, op, n: a + op["_eager"], None),
    "eager*lazy": (lambda a, op, n: numpy.multiply(op["_eager"], a), None),
    "mult2": (lambda a, op, n: 2 * a + a, None),
}

# operations whose result replaces nothing and is a plain observation
OBSERVE = ["all", "tolist", "len", "index", "iterpart", "columns", "type", "shape", "counts", "sum", "max", "min",
           "boolmask", "ismasked", "numpy", "argmax", "argmin", "valid", "regular", "repr", "rowcol", "colrow", "prod"]
DERIVE = ["slice", "slice", "fancy", "negfancy", "fancylist", "mask", "col", "col", "cols", "attr", "add1", "neg", "selfmul", "flatten",
          "pad", "padclip", "pairs", "distincts", "choose", "argpairs", "copy", "zeros", "ones", "concat", "astype", "unzip", "ufuncpair", "cmp", "colk", "colsl", "cut", "argpick", "argdistincts", "where", "mult2", "eager+lazy", "lazy+eager", "eager*lazy"]


def gen_op(rng, names=None):
    name = rng.pick(names) if names else (rng.pick(OBSERVE) if rng.chance(0.5) else rng.pick(DERIVE))
    op = {"op": name, "on": rng.randrange(6)}
    if name in ("index", "iterpart", "boolmask", "colk", "rowcol", "colrow"):
        op["i"] = rng.randrange(0, 8)
        if name == "index" and rng.chance(0.3):
            op["i"] = -1 - rng.randrange(0, 8)
    elif name == "slice":
        op["lo"] = rng.pick([None, 0, 1, 2, 3, 5, -1, -2, -4, 9])
        op["hi"] = rng.pick([None, 0, 1, 3, 4, 6, -1, -3, 9])
        op["st"] = rng.pick([None, None, 1, 2, 3, -1, -1, -2])
    elif name in ("fancy", "negfancy", "fancylist"):
        op["idx"] = [rng.randrange(8) for _ in range(rng.randrange(0, 5))]
        if rng.chance(0.4):
            op["idx"].sort()
    elif name == "mask":
        op["bits"] = rng.randrange(256)
    if name in ("col", "cols", "attr", "rowcol", "colrow"):
        op["c"] = rng.pick(["x", "x", "y", "z"])
    return op

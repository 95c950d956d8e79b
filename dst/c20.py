"""C20: building arrays from an iterator equals building them from a list, or raises.

The source of the elements is the other party: a tree of lists, generators,
iterator objects, sequences and records, each of which may fail, be cancelled,
collect garbage or run another build whenever it is asked for its next element.
"""
import collections
import gc

import numpy

import awkward0
from dst import spec as S
from dst.core import Check, FAULTS, PlanInvalid, SimFault, Violation, short

Pair = collections.namedtuple("Pair", ["u", "v"])
Trio = collections.namedtuple("Trio", ["u", "v", "w"])


class Thing(object):
    def __init__(self, **d):
        self.__dict__.update(d)

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return "{0}({1})".format(type(self).__name__, sorted(self.__dict__.items()))


class Other(Thing):
    pass


CLASSES = {"Pair": Pair, "Trio": Trio, "Thing": Thing, "Other": Other}


class Source(object):
    """everything that happens when elements are asked for"""
    def __init__(self, ctx, plan, check):
        self.ctx, self.plan, self.check = ctx, plan, check
        self.n = 0
        self.depth = 0
        self.fault = None
        self.raised = None
        self.at = None
        self.after = None
        self.actions = {}
        for a in plan.get("actions", []):
            self.actions.setdefault(a["at"], []).append(a)

    def event(self, what):
        if self.raised is not None and self.depth == 0:
            self.after = what
        self.n += 1
        for a in self.actions.get(self.n, []):
            if self.depth == 0:
                self.depth += 1
                try:
                    self.act(a)
                finally:
                    self.depth -= 1
        if self.fault is not None and self.depth == 0:
            self.fault["left"] -= 1
            if self.fault["left"] == 0:
                exc = self.fault["exc"]
                self.ctx.fault(exc)
                self.ctx.sched("fault", exc, what)
                self.raised = FAULTS[exc]("injected at {0}".format(what))
                self.at = what
                raise self.raised

    def act(self, a):
        self.ctx.sched("while", self.n, a["do"])
        if a["do"] == "gc":
            gc.collect(1)
        elif a["do"] == "build":
            self.ctx.probe("re-entrant")
            self.check.onebuild(self.ctx, self, a["build"], "a build inside of a build")
        elif a["do"] == "failing":
            self.ctx.probe("re-entrant")
            src = Source(self.ctx, {}, self.check)
            src.fault = {"left": a["left"], "exc": a["exc"]}
            self.check.failing(self.ctx, src, a["build"], "a failing build inside of a build")
        else:
            raise PlanInvalid("do")


class It(object):
    """an iterator object"""
    def __init__(self, src, make, n, lengthy):
        self.src, self.make, self.n, self.i = src, make, n, 0
        self.lengthy = lengthy

    def __iter__(self):
        self.src.event("iter")
        return self

    def __next__(self):
        self.src.event("next")
        if self.i >= self.n:
            raise StopIteration
        self.i += 1
        return self.make(self.i - 1)

    def __length_hint__(self):
        return self.lengthy


class Lengthy(It):
    """one that knows its length"""
    def __len__(self):
        return self.n - self.i


class Seq(object):
    """a sequence by the old protocol, with a length"""
    def __init__(self, src, make, n):
        self.src, self.make, self.n = src, make, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        self.src.event("item")
        if not 0 <= i < self.n:
            raise IndexError(i)
        return self.make(i)

    def __iter__(self):
        self.src.event("iter")
        for i in range(self.n):
            self.src.event("next")
            yield self.make(i)


class Again(object):
    """an iterable that can be iterated over only once and notices a second time"""
    def __init__(self, src, make, n):
        self.src, self.make, self.n = src, make, n
        self.used = False

    def __iter__(self):
        self.src.event("iter")
        if self.used:
            raise Violation("C20:twice", "the elements were asked for twice")
        self.used = True
        for i in range(self.n):
            self.src.event("next")
            yield self.make(i)


class Dict(dict):
    """a record that may fail when a field is asked for"""
    def __getitem__(self, n):
        self.src.event("field " + n)
        return super(Dict, self).__getitem__(n)


def value(t):
    """the element itself, as a list would hold it"""
    k = t[0]
    if k == "v":
        return t[1]
    if k == "y":
        return t[1].encode("utf-8")
    if k == "num":
        return numpy.dtype(t[1]).type(t[2])
    if k == "cx":
        return complex(t[1], t[2])
    if k == "L":
        return [value(x) for x in t[2]]
    if k == "D":
        return dict((n, value(x)) for n, x in t[1])
    if k == "T":
        return CLASSES[t[1]](*[value(x) for x in t[2]])
    if k == "O":
        return CLASSES[t[1]](**dict((n, value(x)) for n, x in t[2]))
    if k == "A":
        return numpy.array(t[2], dtype=t[1])
    raise PlanInvalid("element")


def live(t, src):
    """the element as the source hands it out"""
    k = t[0]
    if k == "L":
        return lazylist(t[1], t[2], src)
    if k == "D":
        d = Dict((n, live(x, src)) for n, x in t[1])
        d.src = src
        return d
    if k == "T":
        return CLASSES[t[1]](*[live(x, src) for x in t[2]])
    if k == "O":
        return CLASSES[t[1]](**dict((n, live(x, src)) for n, x in t[2]))
    return value(t)


def lazylist(how, kids, src):
    make = lambda i: live(kids[i], src)
    n = len(kids)
    if how == "list":
        return [make(i) for i in range(n)]
    if how == "tuple":
        return tuple(make(i) for i in range(n))
    if how == "deque":
        return collections.deque(make(i) for i in range(n))
    if how == "gen":
        def g():
            for i in range(n):
                src.event("yield")
                yield make(i)
            src.event("end")
        return g()
    if how == "map":
        def one(i):
            src.event("map")
            return make(i)
        return map(one, range(n))
    if how == "iter":
        return It(src, make, n, n)
    if how == "hint":
        return It(src, make, n, [0, 1, 1000][n % 3])
    if how == "lengthy":
        return Lengthy(src, make, n, n)
    if how == "seq":
        return Seq(src, make, n)
    if how == "again":
        return Again(src, make, n)
    if how == "keys" and all(x[0] == "v" and isinstance(x[1], str) for x in kids) and len(set(x[1] for x in kids)) == n:
        return dict((x[1], 0) for x in kids).keys()
    return [make(i) for i in range(n)]


HOWS = ["list", "list", "tuple", "deque", "gen", "gen", "gen", "map", "iter", "iter", "hint", "lengthy", "seq", "again", "keys"]


def expected(t):
    """what reading the built array must give (records without fields cannot be told from missing ones)"""
    k = t[0]
    if k == "A":
        return numpy.array(t[2], dtype=t[1]).tolist()
    if k == "num":
        return value(t).item()
    if k == "L":
        return [expected(x) for x in t[2]]
    if k == "D":
        return dict((n, expected(x)) for n, x in t[1])
    if k == "T":
        return CLASSES[t[1]](*[expected(x) for x in t[2]])
    if k == "O":
        return CLASSES[t[1]](**dict((n, expected(x)) for n, x in t[2]))
    return value(t)


def plain(x):
    """any result as comparable data; bool and int are told apart, int and float are not"""
    if isinstance(x, (bool, numpy.bool_)):
        return ("bool", bool(x))
    if isinstance(x, Thing):
        return (type(x).__name__, plain(dict(x.__dict__)))
    if isinstance(x, (Pair, Trio)):
        return (type(x).__name__, [plain(y) for y in x])
    if isinstance(x, complex):
        return ("complex", x) if x.imag else plain(x.real)
    if isinstance(x, float) and x != x:
        return "nan"
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, numpy.generic):
        return plain(x.item())
    return x


def outline(x):
    """classes and item types, all the way down"""
    if isinstance(x, numpy.ndarray):
        return "{0}{1}".format(x.dtype, x.shape[1:] or "")
    if isinstance(x, awkward0.StringArray):
        return "StringArray({0})".format(x.encoding)
    if isinstance(x, awkward0.ObjectArray):
        return "ObjectArray({0})".format(outline(x.content))
    if isinstance(x, awkward0.Table):
        return "Table({0})".format(",".join(n + ":" + outline(x._contents[n]) for n in x._contents))
    if isinstance(x, awkward0.UnionArray):
        return "Union({0};{1})".format(",".join(outline(y) for y in x.contents), x.tags.tolist())
    if isinstance(x, awkward0.ChunkedArray):
        return "Chunked({0})".format(",".join(outline(y) for y in x.chunks))
    if hasattr(type(x), "content"):
        return "{0}({1})".format(type(x).__name__, outline(x.content))
    return type(x).__name__


# --------------------------------------------------------------------------- generation

def gen_kind(rng, depth):
    """what the elements of one list have in common, most of the time"""
    kinds = ["int", "float", "bool", "str", "bytes", "mixnum", "num"]
    if depth > 0:
        kinds += ["list", "list", "list", "rec", "rec", "tup", "obj", "arr", "mixed", "mixed"]
    k = rng.pick(kinds)
    sub = None
    if k == "list":
        sub = gen_kind(rng, depth - 1)
    elif k in ("rec", "obj", "tup"):
        sub = [gen_kind(rng, depth - 1) for _ in range(3)]
    elif k == "mixed":
        sub = [gen_kind(rng, depth - 1) for _ in range(rng.randrange(2, 4))]
    return {"k": k, "sub": sub, "none": rng.pick([0, 0, 0, 0.2, 0.5]), "cls": rng.pick(["Thing", "Other"]), "odd": rng.pick([0, 0, 0, 0.2])}


def gen_elem(rng, kind, budget):
    budget[0] -= 1
    if rng.random() < kind["none"]:
        return ["v", None]
    if kind["odd"] and rng.random() < kind["odd"]:
        return gen_elem(rng, dict(gen_kind(rng, 1), none=0, odd=0), budget)
    k = kind["k"]
    if k == "int":
        return ["v", rng.randrange(-5, 100)]
    if k == "float":
        return ["v", rng.pick([0.5, -2.25, 1e10, 3.0])]
    if k == "bool":
        return ["v", rng.chance(0.5)]
    if k == "str":
        return ["v", rng.pick(["", "a", "bc", "d\u00e9", "\u20ac" * 3, "one two"]) if rng.chance(0.7) else "s%d" % rng.randrange(50)]
    if k == "bytes":
        return ["y", rng.pick(["", "a", "bc", "xyz"])]
    if k == "mixnum":
        return rng.pick([["v", rng.randrange(9)], ["v", 0.5 + rng.randrange(9)], ["cx", 1, rng.randrange(3)]]) if rng.chance(0.9) else ["v", 2**40 + rng.randrange(3)]
    if k == "num":
        return ["num", rng.pick(["i4", "f4", "u1", "f8"]), rng.randrange(100)]
    if k == "list":
        n = 0 if budget[0] <= 0 else rng.pick([0, 0, 1, 2, 3])
        return ["L", rng.pick(HOWS), [gen_elem(rng, kind["sub"], budget) for _ in range(n)]]
    if k == "rec":
        names = ["x", "y", "z"] if rng.chance(0.85) else ["x", "w", "z"]
        m = 2 if kind["odd"] == 0 else rng.pick([2, 2, 1, 3])
        return ["D", [[names[i], gen_elem(rng, kind["sub"][i], budget)] for i in range(m)]]
    if k == "tup":
        cls = "Pair" if kind["cls"] == "Thing" else "Trio"
        return ["T", cls, [gen_elem(rng, kind["sub"][i], budget) for i in range(2 if cls == "Pair" else 3)]]
    if k == "obj":
        return ["O", kind["cls"], [[["x", "y"][i], gen_elem(rng, kind["sub"][i], budget)] for i in range(rng.pick([2, 2, 2, 0]))]]
    if k == "arr":
        return ["A", rng.pick(["i8", "f8", "?"]), [rng.randrange(2) for _ in range(rng.randrange(4))]]
    if k == "mixed":
        return gen_elem(rng, rng.pick(kind["sub"]), budget)
    raise AssertionError(k)


WAYS = ["fromiter", "fromiter", "fromiter", "fromiter", "jagged", "strings", "bytes", "chunks", "union", "table", "pairs", "append", "zip", "fromtags", "concatenate", "chunksizes"]


def gen_build(rng, deep):
    way = rng.pick(WAYS)
    n = rng.pick([0, 1, 2, 3, 4, 6])
    b = {"way": way, "how": rng.pick(HOWS), "opt": rng.randrange(6)}
    budget = [30]
    if way == "fromiter":
        kind = gen_kind(rng, deep)
        b["kids"] = [gen_elem(rng, kind, budget) for _ in range(n)]
    elif way == "jagged":
        kind = gen_kind(rng, max(0, deep - 1))
        b["kids"] = [["L", rng.pick(HOWS), [gen_elem(rng, kind, budget) for _ in range(rng.randrange(4))]] for _ in range(n)]
    elif way == "strings":
        b["kids"] = [["v", rng.pick(["", "a", "bc", "d\u00e9"])] for _ in range(n)]
    elif way == "bytes":
        b["kids"] = [["y", rng.pick(["", "a", "bc", "xyz" * 5])] for _ in range(n)]
    elif way in ("chunks", "union", "append", "concatenate", "fromtags", "chunksizes"):
        b["kids"] = [["A", "i8", [rng.randrange(100) for _ in range(rng.randrange(0 if way != "append" else 3, 4))]] for _ in range(n)]
    elif way == "table":
        b["kids"] = [["v", rng.randrange(100)] for _ in range(n)]
    elif way in ("pairs", "zip"):
        m = rng.randrange(4)
        b["m"] = m
        b["kids"] = [["A", "i8", [rng.randrange(100) for _ in range(m)]] for _ in range(n)]
    return b


class C20(Check):
    prop = "C20"
    quick_runs = 60000
    thorough_runs = 1000000
    rule = "non-trivial: a source failed, or ran another build while it was asked for elements; distinct by event-sequence hash"
    real = ["awkward0.generate", "fromiter constructors", "constructors that take iterables", "numpy"]
    stub = ["the sources of elements (iterators, generators, sequences, records)"]
    assumptions = ["a constructor may refuse an iterator by raising TypeError before it returns anything",
                   "StopIteration raised by an iterator and IndexError raised by a sequence of the old protocol mean the end",
                   "empty records cannot be told from missing values"]
    required_probes = ["re-entrant", "failed", "cancelled", "rebuilt", "accepted-iterator"]

    def gen(self, rng, tier):
        deep = rng.randrange(0, 4)
        ops = []
        for _ in range(rng.randrange(1, 4)):
            b = gen_build(rng, deep)
            op = {"build": b, "actions": [], "fault": None}
            for _ in range(rng.pick([0, 0, 1, 1, 2])):
                a = {"at": rng.randrange(1, 12), "do": rng.pick(["build", "build", "failing", "gc"])}
                if a["do"] != "gc":
                    a["build"] = gen_build(rng, 1)
                    a["left"] = rng.randrange(1, 5)
                    a["exc"] = rng.pick(["io", "value", "interrupt"])
                op["actions"].append(a)
            if rng.chance(0.7):
                op["fault"] = {"left": rng.pick([1, 2, 3, rng.randrange(1, 25)]), "exc": rng.pick(["io", "key", "mem", "value", "runtime", "type", "attr", "interrupt", "stop", "index", "crash"])}
            ops.append(op)
        return {"ops": ops}

    def execute(self, plan, ctx):
        kept = []
        for op in plan["ops"]:
            src = Source(ctx, op, self)
            b = op["build"]
            ctx.sched("build", b["way"], b["how"], len(b["kids"]))
            if op.get("fault"):
                src.fault = dict(op["fault"])
                out = self.failing(ctx, src, b, "a build")
            else:
                out = self.onebuild(ctx, src, b, "a build")
            if out is not None:
                kept.append((b, out))
            # later builds are unaffected
            again = self.onebuild(ctx, Source(ctx, {}, self), b, "a build after another")
            ctx.probe("rebuilt")
            if again is not None:
                kept.append((b, again))
        for b, (result, value, form) in kept:
            ctx.checks += 1
            if self.valueof(b, result) != value:
                raise Violation("C20:changed", "{0} was built as {1}, reads as {2} later".format(b["way"], S.show(value), S.show(self.valueof(b, result))))

    # ------------------------------------------------------------------ one build
    def construct(self, b, elements):
        way, opt = b["way"], b["opt"]
        if way == "fromiter":
            options = [{}, {}, {}, {"dictencoding": True}, {"maskedwhen": False}, {"maskedwhen": True}][opt % 6]
            return awkward0.fromiter(elements, **options)
        if way == "jagged":
            return awkward0.JaggedArray.fromiter(elements)
        if way == "strings":
            return awkward0.StringArray.fromiter(elements) if opt % 2 else awkward0.StringArray.fromiter(elements, encoding="utf-16")
        if way == "bytes":
            return awkward0.StringArray.fromiter(elements, encoding=None)
        if way == "chunks":
            return awkward0.ChunkedArray(elements)
        if way == "chunksizes":
            return awkward0.ChunkedArray([numpy.array(k[2], dtype="i8") for k in b["kids"]], elements)
        if way == "union":
            n = len(b["kids"])
            tags = [i for i, k in enumerate(b["kids"]) for _ in k[2]]
            index = [j for k in b["kids"] for j in range(len(k[2]))]
            return awkward0.UnionArray(numpy.array(tags, "u1"), numpy.array(index, "i8"), elements)
        if way == "fromtags":
            tags = [i for i, k in enumerate(b["kids"]) for _ in k[2]]
            return awkward0.UnionArray.fromtags(numpy.array(tags, "u1"), elements)
        if way == "table":
            return awkward0.Table(x=elements)
        if way == "pairs":
            return awkward0.Table.frompairs(elements, 0)
        if way == "zip":
            return awkward0.JaggedArray.zip(dict(elements))
        if way == "append":
            return awkward0.AppendableArray((3,), numpy.dtype("i8"), elements)
        if way == "concatenate":
            return awkward0.concatenate(elements)
        raise PlanInvalid("way")

    def elements(self, b, src):
        """the iterable that is given to the constructor"""
        kids = b["kids"]
        way = b["way"]
        if way in ("pairs", "zip"):
            wrap = lambda i: ("c%d" % i, numpy.array(kids[i][2], "i8") if way == "pairs" else awkward0.JaggedArray.fromcounts([len(kids[i][2])], numpy.array(kids[i][2], "i8")))
        elif way == "chunksizes":
            wrap = lambda i: len(kids[i][2])
        elif way == "concatenate":
            wrap = lambda i: awkward0.JaggedArray.fromcounts([len(kids[i][2])], numpy.array(kids[i][2], "i8"))
        else:
            wrap = None
        if wrap is None:
            return lazylist(b["how"], kids, src) if src is not None else [value(k) for k in kids]
        if src is None:
            return [wrap(i) for i in range(len(kids))]
        return wrapped(b["how"], wrap, len(kids), src)

    def want(self, b):
        kids, way = b["kids"], b["way"]
        if way in ("fromiter", "jagged", "strings", "bytes"):
            if any(fieldless(k) for k in kids):
                return None
            return plain([expected(k) for k in kids])
        if way in ("chunks", "union", "append", "fromtags", "chunksizes"):
            return [x for k in kids for x in k[2]]
        if way == "table":
            return [{"x": k[1]} for k in kids]
        if way == "pairs":
            return [dict(("c%d" % i, k[2][j]) for i, k in enumerate(kids)) for j in range(b["m"])] if kids else []
        if way == "zip":
            return [[dict(("c%d" % i, k[2][j]) for i, k in enumerate(kids)) for j in range(b["m"])]] if kids else None
        if way == "concatenate":
            return [list(k[2]) for k in kids]
        raise PlanInvalid("way")

    def valueof(self, b, result):
        return plain(result.tolist())

    def reference(self, b):
        """(value, form) of the build from a list, or None where that cannot be built or is not what was listed"""
        try:
            ref = self.construct(b, self.elements(b, None))
            v = self.valueof(b, ref)
            form = outline(ref)
        except Violation:
            raise
        except Exception:
            return None
        return v, form

    def onebuild(self, ctx, src, b, what):
        ref = self.reference(b)
        elements = self.elements(b, src)
        try:
            result = self.construct(b, elements)
        except Violation:
            raise
        except TypeError as err:
            if b["how"] not in ("list", "tuple") and b["way"] != "fromiter":
                return None                 # refuses iterators
            if ref is None:
                return None
            raise Violation("C20:raises", "{0} ({1} of {2}) raises {3}, from a list it gives {4}".format(what, b["way"], b["how"], short(err), S.show(ref[0])))
        except Exception as err:
            if ref is None:
                return None
            raise Violation("C20:raises", "{0} ({1} of {2}) raises {3}, from a list it gives {4}".format(what, b["way"], b["how"], short(err), S.show(ref[0])))
        if src is not None and src.n:
            ctx.probe("accepted-iterator")
        if ref is None:
            try:
                self.valueof(b, result)
            except Exception:
                return None
            raise Violation("C20:not-from-list", "{0} ({1} of {2}) gives {3}, from a list it cannot be built".format(what, b["way"], b["how"], S.show(self.valueof(b, result))))
        ctx.checks += 1
        got, form = self.valueof(b, result), outline(result)
        ctx.log(b["way"], "=", S.show(got, 120), form)
        if got != ref[0] or form != ref[1]:
            raise Violation("C20:differs", "{0} ({1} of {2}) gives {3} {4}, from a list {5} {6}".format(what, b["way"], b["how"], S.show(got), form, S.show(ref[0]), ref[1]))
        want = self.want(b)
        if want is not None and got != want:
            raise Violation("C20:value", "{0} ({1}) of {2} gives {3}".format(what, b["way"], S.show(want), S.show(got)))
        return result, got, form

    def failing(self, ctx, src, b, what):
        elements = self.elements(b, src)
        try:
            result = self.construct(b, elements)
        except Violation:
            raise
        except BaseException as err:
            if src.raised is None:
                if isinstance(err, Exception) and (self.reference(b) is None or isinstance(err, TypeError) and b["way"] != "fromiter"):
                    return None
                if isinstance(err, Exception):
                    raise Violation("C20:raises", "{0} ({1} of {2}) raises {3} although nothing failed".format(what, b["way"], b["how"], short(err)))
                raise
            if ends(src):
                return None
            ctx.probe("failed")
            ctx.checks += 1
            if not isinstance(err, Exception):
                ctx.probe("cancelled")
            if err is not src.raised and not (isinstance(src.raised, StopIteration) and isinstance(err, RuntimeError)):
                if isinstance(err, (TypeError, ValueError)) and b["way"] != "fromiter" and b["how"] not in ("list", "tuple"):
                    return None             # refused, whatever else happened to it
                raise Violation("C20:other-failure", "the source of {0} ({1} of {2}) failed with {3}, what is raised is {4}".format(what, b["way"], b["how"], short(src.raised), short(err)))
            if src.after is not None:
                raise Violation("C20:goes-on", "the source of {0} ({1}) was asked for {2} after it had failed".format(what, b["way"], src.after))
            return None
        if src.raised is None:
            src.fault = None
            ref = self.reference(b)
            if ref is None:
                return None
            got, form = self.valueof(b, result), outline(result)
            ctx.checks += 1
            if (got, form) != ref:
                raise Violation("C20:differs", "{0} ({1} of {2}) gives {3} {4}, from a list {5} {6}".format(what, b["way"], b["how"], S.show(got), form, S.show(ref[0]), ref[1]))
            return result, got, form
        if ends(src):
            return None
        raise Violation("C20:swallowed", "the source of {0} ({1} of {2}) failed with {3}, and {4} was returned".format(what, b["way"], b["how"], short(src.raised), S.show(self.valueof(b, result))))


def fieldless(t):
    """records without fields have no column to know their number from"""
    if t[0] == "L":
        return any(fieldless(x) for x in t[2])
    if t[0] == "T":
        return any(fieldless(x) for x in t[2])
    if t[0] == "D":
        return not t[1] or any(fieldless(x) for _, x in t[1])
    if t[0] == "O":
        return not t[2] or any(fieldless(x) for _, x in t[2])
    return False


def ends(src):
    """failures that mean the end of an iteration"""
    if isinstance(src.raised, StopIteration):
        return src.at in ("next", "map")
    return isinstance(src.raised, IndexError) and src.at == "item"


def wrapped(how, wrap, n, src):
    class Kid(list):
        pass
    if how in ("gen", "map", "keys"):
        def g():
            for i in range(n):
                src.event("yield")
                yield wrap(i)
            src.event("end")
        return g()
    if how in ("iter", "hint"):
        return It(src, wrap, n, n)
    if how == "lengthy":
        return Lengthy(src, wrap, n, n)
    if how == "seq":
        return Seq(src, wrap, n)
    if how == "again":
        return Again(src, wrap, n)
    return [wrap(i) for i in range(n)]


CHECK = C20()

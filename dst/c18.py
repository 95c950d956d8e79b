"""C18: tables and their views stay consistent under interleaved edits and failures."""
import copy
import gc
from collections import OrderedDict

import numpy

import awkward0

from dst import spec as S
from dst.c01 import gen_cfg
from dst.core import Check, PlanInvalid, SimFault, Violation, isinjected, short
from dst.lazy import World

NAMES = ["x", "y", "z", "w"]
EXCS = ["io", "io", "value", "type", "key", "index", "attr", "runtime", "mem"]


class Handle(object):
    """a table, and what it should be: columns in base coordinates and selected rows"""
    def __init__(self, a, cols, rows, parent=None):
        self.a, self.cols, self.rows, self.parent = a, cols, rows, parent
        self.edits = 0

    def n(self):
        if self.rows is not None:
            return len(self.rows)
        return min(len(v[0]) for v in self.cols.values()) if self.cols else 0

    def sel(self):
        return self.rows if self.rows is not None else list(range(self.n()))

    def value(self):
        sel = self.sel()
        return [OrderedDict((m, v[0][i]) for m, v in self.cols.items()) for i in sel]

    def col(self, m):
        v = self.cols[m][0]
        return [v[i] for i in self.rows] if self.rows is not None else list(v)

    def lazy(self, names=None):
        """ids of the lazy descriptions behind some columns"""
        out = set()
        for m, v in self.cols.items():
            if names is None or m in names:
                out |= v[1]
        return out


class Error(object):
    """the operation must raise and change nothing"""


class C18(Check):
    prop = "C18"
    quick_runs = 24000
    thorough_runs = 900000
    rule = "non-trivial: an edit happened while another handle to the same table existed, or a lazy column failed; distinct by event-sequence hash"
    real = ["Table (views, edits, rows), the arrays in its columns, JaggedArray/MaskedArray/ChunkedArray/UnionArray edits that reach a Table"]
    stub = ["loaders of lazy columns (fail on schedule)", "the cache (evictions)"]
    assumptions = ["a Row or an iterator taken before an edit of its own table is not asked for what it shows afterwards"]
    required_probes = ["edit-with-views", "lazy-failed", "view-of-view", "edit-refused", "not-loaded", "wrap-refused"]

    # ------------------------------------------------------------------ generation

    def gencol(self, rng, ser, n, lazy=0.4):
        c = S.gen(rng, n, rng.pick([0, 0, 0, 1]), ser, allow=("num", "num", "jag", "str", "tab", "msk"))
        if rng.chance(lazy):
            c = {"k": "vir", "c": S.strip(c)}
        return c

    def gen(self, rng, tier):
        ser = S.Serial()
        if rng.chance(0.2):
            return self.genwrap(rng, ser)
        n = rng.randrange(0, 7)
        lazy = rng.pick([0, 0.5, 1.0])
        cols = [[m, self.gencol(rng, ser, n + rng.pick([0, 0, 0, 0, 1, 2]), lazy)] for m in NAMES[: rng.randrange(1, 4)]]
        ops = []
        for _ in range(rng.randrange(3, 16)):
            r = rng.random()
            on = rng.pick([0, 0, rng.randrange(8), rng.randrange(8)])
            if r < 0.3:
                name = rng.pick(["slice", "slice", "fancy", "negfancy", "mask", "cols", "cols", "copy", "shallow", "deepcopy", "add1", "zeros", "fromview", "concat", "concat"])
            elif r < 0.6:
                name = rng.pick(["setcol", "setcol", "setcol", "setcols", "setscalar", "delcol", "delcols", "setbad", "setfrom"])
            elif r < 0.95:
                name = rng.pick(["all", "tolist", "len", "row", "rowcol", "colrow", "col", "col", "attr", "iter", "columns", "unzip", "rows", "rowagain", "itern", "colnone", "base", "type", "str", "sum"])
            else:
                name = rng.pick(["evictall", "gc", "checkall", "checkall"])
            op = {"op": name, "on": on}
            if name == "slice":
                op["lo"], op["hi"], op["st"] = rng.pick([None, 0, 1, 2, 3, -1, -2, -4, 9]), rng.pick([None, 0, 1, 3, 4, 6, -1, -3, 9]), rng.pick([None, None, 1, 2, 3, -1, -1, -2])
            elif name in ("fancy", "negfancy", "fromview"):
                op["idx"] = [rng.randrange(8) for _ in range(rng.randrange(0, 5))]
            elif name == "mask":
                op["bits"] = rng.randrange(256)
            elif name in ("cols", "setcols", "delcols"):
                op["cs"] = rng.sample(NAMES, rng.randrange(1, 3))
            if name in ("setcol", "setscalar", "delcol", "rowcol", "colrow", "col", "attr", "setfrom", "setbad", "rowagain"):
                op["c"] = rng.pick(NAMES)
            if name == "setcol":
                op["spec"] = self.gencol(rng, ser, n + rng.pick([0, 0, 0, 0, 1, 3, -1 if n else 0]), lazy)
                op["src"] = rng.pick(["array", "array", "list"])
            if name == "setcols":
                op["specs"] = [self.gencol(rng, ser, n, lazy) for _ in range(len(op["cs"]) + rng.pick([0, 0, 0, 1]))]
            if name in ("row", "rowcol", "colrow", "rowagain", "itern"):
                op["i"] = rng.randrange(-7, 8)
            if name in ("setfrom", "setbad", "setscalar", "concat"):
                op["i"] = rng.randrange(0, 50)
            if rng.chance(0.3):
                op["fault"] = {"exc": rng.pick(EXCS), "at": rng.pick([0, 0, 1, 2]), "kinds": ["gen"], "times": rng.pick([1, 1, 2, 99])}
            ops.append(op)
        return {"mode": "table", "cfg": gen_cfg(rng), "cols": cols, "ops": ops, "ids": rng.pick(["now", "later", "never"])}

    def genwrap(self, rng, ser):
        n = rng.randrange(1, 6)
        kind = rng.pick(["jag", "jag", "msk", "chk", "uni", "idx"])
        counts = S.gen_counts(rng, n, 3)
        m = sum(counts) if kind == "jag" else n
        cols = [[c, S.gen(rng, m, 0, ser, allow=("num",))] for c in ["x", "y", "z"][: rng.randrange(2, 4)]]
        ops = []
        for _ in range(rng.randrange(2, 8)):
            name = rng.pick(["set", "set", "sets", "sets", "del", "dels", "dels", "read"])
            op = {"op": name, "cs": rng.sample(NAMES, rng.randrange(1, 3)), "vs": [S.gen(rng, m, 0, ser, allow=("num",)) for _ in range(2)], "bad": rng.pick([None, None, 0, 1])}
            ops.append(op)
        return {"mode": "wrap", "kind": kind, "counts": counts, "n": n, "cols": cols, "ops": ops, "cut": rng.randrange(0, n + 1), "perm": rng.sample(range(n), n), "ids": "now"}

    # ------------------------------------------------------------------ execution

    def execute(self, plan, ctx):
        if plan["mode"] == "wrap":
            return self.wrap(plan, ctx)
        w = World(ctx, plan["cfg"])
        t = awkward0.Table()
        cols = OrderedDict()
        given = []
        for m, c in plan["cols"]:
            arr = S.build(c, w)
            self.given(given, arr, c)
            t[m] = arr
            cols[m] = self.column(c)
        handles = [Handle(t, cols, None)]
        kept = {}
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            if name == "gc":
                gc.collect()
                continue
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                continue
            if name == "checkall":
                self.checkall(ctx, w, handles, step)
                continue
            k = op["on"] % len(handles)
            h = handles[k]
            self.perform(ctx, w, handles, h, op, step, given, kept)
        self.checkall(ctx, w, handles, "end")
        for arr, v in given:
            if not S.same(S.norm(arr), v):
                raise Violation("C18:given", "an array handed in was changed from {0} to {1}".format(S.show(v), S.show(S.norm(arr))))

    @staticmethod
    def column(c):
        return [S.norm(S.pyvalue(c)), set(id(sp) for _, sp in S.virtuals(c))]

    @staticmethod
    def given(given, arr, c):
        if isinstance(arr, numpy.ndarray):
            given.append((arr, S.norm(S.pyvalue(c))))

    def checkall(self, ctx, w, handles, step):
        for j, h in enumerate(handles):
            ctx.checks += 1
            want = [dict(r) for r in h.value()]
            if len(h.a) != len(want):
                raise Violation("C18:length", "handle {0} at {1}: length {2}, expected {3}".format(j, step, len(h.a), len(want)))
            if list(h.a.columns) != list(h.cols):
                raise Violation("C18:columns", "handle {0} at {1}: columns {2}, expected {3}".format(j, step, list(h.a.columns), list(h.cols)))
            got = S.norm(h.a)
            if not S.same(got, want):
                raise Violation("C18:value", "handle {0} at {1}: {2}, expected {3}".format(j, step, S.show(got), S.show(want)))
            for m in h.cols:
                got = S.norm(h.a[m])
                if not S.same(got, h.col(m)):
                    raise Violation("C18:value", "column {0} of handle {1} at {2}: {3}, expected {4}".format(m, j, step, S.show(got), S.show(h.col(m))))
        if hasattr(w.cache, "evict_all"):
            w.cache.evict_all()

    def typed(self, w, h, names=None):
        """every lazy column knows its own length"""
        mine = h.lazy(names)
        return all(getattr(node, "typed", False) for node in w.nodes if id(node.sp) in mine)

    def perform(self, ctx, w, handles, h, op, step, given, kept):
        name = op["op"]
        n = h.n()
        view = h.rows is not None
        names = list(h.cols)
        everything = h.lazy()
        ctx.sched("op", step, name, handles.index(h))
        call, want, after, allowed = self.plan_op(ctx, w, handles, h, op, n, view, names, everything, given, kept)
        if call is None:
            return
        if allowed is not None and view is False and name in ("slice", "fancy", "negfancy", "mask", "len", "row", "rowcol", "iter", "itern") and not self.typed(w, h):
            allowed = None          # how many rows there are depends on every column
        edit = name.startswith("set") or name.startswith("del")
        for attempt in range(2 if op.get("fault") else 1):
            last = attempt == (1 if op.get("fault") else 0)
            if not last:
                w.arm(op["fault"])
            before = len(w.calls)
            err = res = got = None
            try:
                res = call()
                got = None if edit or want is Error else S.norm(res)
            except Violation:
                raise
            except Exception as e:
                err = e
            fired = w.disarm()
            ctx.checks += 1
            ctx.log(step, name, attempt, "raised " + type(err).__name__ if err is not None else "gave " + S.show(got, 120))
            called = w.calls[before:]
            if allowed is not None:
                ctx.probe("not-loaded")
                wrong = [c for c in called if id(w.nodes[c].sp) in everything and id(w.nodes[c].sp) not in allowed]
                if wrong:
                    raise Violation("C18:loads", "{0} loaded a lazy column it does not involve".format(self.shown(op)))
            if fired:
                ctx.probe("lazy-failed")
                ctx.nontrivial = True
            if err is not None:
                if fired:
                    self.unchanged(ctx, h, op, names)
                    continue
                if want is Error:
                    ctx.probe("edit-refused")
                    self.unchanged(ctx, h, op, names)
                    return
                raise Violation("C18:raises", "{0}{1}: expected {2}, raises {3}".format(self.shown(op), " after a failed load" if attempt else "", S.show(want), short(err)))
            if want is Error:
                raise Violation("C18:accepted", "{0} on {1} should be refused".format(self.shown(op), S.show(h.value())))
            if want is not None and not S.same(got, want):
                raise Violation("C18:value", "{0}{1}: expected {2}, got {3}".format(
                    self.shown(op), " while a load failed" if fired else " after a failed load" if attempt else "", S.show(want), S.show(got)))
            if after is not None:
                if edit and len(handles) > 1:
                    ctx.probe("edit-with-views")
                    ctx.nontrivial = True
                after(res)
            return

    def unchanged(self, ctx, h, op, names):
        if list(h.a.columns) != names:
            raise Violation("C18:failed-edit", "{0} failed, but the columns are {1} (they were {2})".format(self.shown(op), list(h.a.columns), names))

    @staticmethod
    def shown(op):
        return dict((k, v) for k, v in op.items() if k not in ("on", "fault"))

    def plan_op(self, ctx, w, handles, h, op, n, view, names, everything, given, kept):
        """(call, expected value, what to do afterwards, the lazy columns it may load or None for any)"""
        a = h.a
        name = op["op"]
        none = (None, None, None, None)

        def derive(rows, cols=None, full=False):
            def after(res):
                if type(res) is not awkward0.Table or len(handles) >= 8:
                    return
                if rows is not None and h.rows is not None:
                    ctx.probe("view-of-view")
                handles.append(Handle(res, cols if cols is not None else OrderedDict(h.cols), rows, h))
            return after

        if name in ("slice", "fancy", "negfancy", "mask", "fromview"):
            sel = h.sel()
            if name == "slice":
                s = slice(op["lo"], op["hi"], op["st"] or None)
                rows = sel[s]
                call = lambda: a[s]
            elif name == "mask":
                m = numpy.array([bool((op["bits"] >> i) & 1) for i in range(n)], dtype=bool)
                rows = [x for x, b in zip(sel, m) if b]
                call = lambda: self.caller(a, m)
            else:
                if n == 0 and op["idx"]:
                    return none
                idx = [i % n for i in op["idx"]] if n else []
                rows = [sel[i] for i in idx]
                if name == "fromview":
                    if view:
                        return none
                    arr = numpy.array(idx, dtype="i8")
                    call = lambda: awkward0.Table.fromview(arr, a)
                else:
                    arr = numpy.array([i - n for i in idx] if name == "negfancy" else idx, dtype="i8")
                    call = lambda: self.caller(a, arr)
            want = [dict((m, v[0][i]) for m, v in h.cols.items()) for i in rows]
            # select only: nothing needs to be loaded; what comes out is compared later
            return (lambda: self.lazily(call)), None, lambda res: derive(rows)(res.x), set()
        if name == "cols":
            cs = op["cs"]
            if any(c not in h.cols for c in cs):
                return (lambda: a[cs]), Error, None, None
            cols = OrderedDict((c, h.cols[c]) for c in cs)
            # without a view of its own, the selection is as long as the selected columns
            return (lambda: self.lazily(lambda: a[cs])), None, lambda res: derive(h.rows, cols)(res.x), set()
        if name in ("shallow", "deepcopy", "add1", "zeros") and not view and len(set(len(v[0]) for v in h.cols.values())) > 1:
            return none             # what becomes of the rest of longer columns is nobody's business
        if name in ("copy", "shallow"):
            if name == "shallow" and everything:
                return none         # the copy module saves and reads back: not for columns with loaders
            f = (lambda: a.copy()) if name == "copy" else (lambda: copy.copy(a))
            return (lambda: self.lazily(f)), None, lambda res: derive(h.rows)(res.x), set()
        if name == "deepcopy":
            sel = h.sel()
            cols = OrderedDict((m, [[v[0][i] for i in sel], set()]) for m, v in h.cols.items())
            if not h.cols:
                return none
            want = [dict((m, v[0][i]) for m, v in h.cols.items()) for i in sel]
            if op["on"] % 2 or everything:
                return (lambda: a.deepcopy()), want, derive(None, cols), None
            if view:
                # the copy module saves and reads back: a view of its own whole table
                cols = OrderedDict((m, [list(v[0]), set()]) for m, v in h.cols.items())
                return (lambda: copy.deepcopy(a)), want, derive(h.rows, cols), None
            return (lambda: copy.deepcopy(a)), want, derive(None, cols), None
        if name == "concat":
            with_ = [h] + [handles[(op["i"] >> (3 * k)) % len(handles)] for k in range(op["i"] % 3)]
            if not h.cols:
                return none
            if any(set(x.cols) != set(h.cols) for x in with_):
                return (lambda: awkward0.Table.concatenate([x.a for x in with_])), Error, None, None
            if any(x.lazy() for x in with_):
                return none         # what is lazy is concatenated lazily, if its type is known
            cols = OrderedDict((m, [[v for x in with_ for v in x.col(m)[:x.n()]], set()]) for m in h.cols)
            for v, _ in cols.values():
                if not v or not all(type(x) in (int, float) for x in v):
                    return none
            if not all(self.numeric(x.a) for x in with_):
                return none
            want = [dict((m, v[0][i]) for m, v in cols.items()) for i in range(len(next(iter(cols.values()))[0]))]
            call = (lambda: h.a.concatenate([x.a for x in with_[1:]])) if op["i"] % 5 and len(with_) > 1 else (lambda: awkward0.Table.concatenate([x.a for x in with_]))
            return call, want, derive(None, cols), None
        if name in ("add1", "zeros", "sum"):
            sel = h.sel()
            vals = [v[0][i] for v in h.cols.values() for i in range(len(v[0]))]
            if not vals or not sel or not all(type(x) in (int, float) for x in vals) or not self.numeric(a):
                return none
            f = {"add1": lambda x: x + 1, "zeros": lambda x: 0}.get(name)
            if name == "sum":
                want = dict((m, sum(v[0][i] for i in sel)) for m, v in h.cols.items())
                return (lambda: a.sum()), want, None, None
            cols = OrderedDict((m, [[f(v[0][i]) for i in sel], set()]) for m, v in h.cols.items())
            return (lambda: a + 1 if name == "add1" else a.zeros_like()), [dict((m, v[0][i]) for m, v in cols.items()) for i in range(len(sel))], derive(None, cols), None

        if "cs" in op and not op["cs"]:
            raise PlanInvalid("cs")
        if name in ("setcol", "setscalar", "setcols", "setbad", "setfrom", "delcol", "delcols"):
            return self.plan_edit(ctx, w, handles, h, op, n, view, names, given, kept)

        rows = h.value()
        plain = [dict(r) for r in rows]
        if name in ("all", "tolist", "iter", "rows"):
            call = {"all": lambda: a, "tolist": lambda: a.tolist(), "iter": lambda: [S.norm(x) for x in a], "rows": lambda: list(a)}[name]
            return call, plain, None, None
        if name == "itern":
            k = op["i"] % (n + 1)

            def call():
                out = []
                it = iter(a)
                for _ in range(k):
                    out.append(S.norm(next(it)))
                return out
            return call, plain[:k], None, None
        if name == "len":
            return (lambda: len(a)), n, None, set()
        if name == "columns":
            return (lambda: list(a.columns)), names, None, set()
        if name == "type":
            return (lambda: self.lazily(lambda: a.type)), None, None, None
        if name == "str":
            return (lambda: len(str(a)) >= 0 and len(repr(a)) > 0), True, None, None
        if name == "base":
            if not view or h.parent is None:
                return none
            return (lambda: a._base is not None), True, None, set()
        if name == "unzip":
            return (lambda: list(a.unzip())), [h.col(m) for m in names], None, None
        if name in ("col", "attr", "colrow"):
            c = op["c"]
            if c not in h.cols:
                return ((lambda: a[c]) if name != "attr" else (lambda: getattr(a, c))), Error, None, None
            want = h.col(c)
            if name == "col":
                return (lambda: a[c]), want, None, h.lazy([c])
            if name == "attr":
                return (lambda: getattr(a, c)), want, None, h.lazy([c])
            i = op["i"]
            if not -len(want) <= i < len(want):
                return (lambda: a[c][i]), Error, None, None
            return (lambda: a[c][i]), want[i], None, h.lazy([c])
        if name in ("row", "rowcol"):
            i = op["i"]
            if not -n <= i < n:
                return (lambda: a[i]), Error, None, None

            def keep(res):
                kept["row"] = (res if name == "row" else a[i], h, h.edits, i)
            if name == "row":
                return (lambda: a[i]), plain[i], keep, None
            c = op["c"]
            if c not in h.cols:
                return (lambda: a[i][c]), Error, None, None
            return (lambda: a[i][c]), plain[i][c], None, h.lazy([c])
        if name == "rowagain":
            # a row taken earlier, read after other things happened to other handles
            if "row" not in kept:
                return none
            row, hh, edits, i = kept["row"]
            if hh.edits != edits or op["c"] not in hh.cols:
                return none
            return (lambda: [row[op["c"]], row.tolist() is not None]), [hh.value()[i][op["c"]], True], None, None
        if name == "colnone":
            return (lambda: a["nope"]), Error, None, set()
        raise PlanInvalid("op")

    @staticmethod
    def numeric(a):
        return all(isinstance(x, (numpy.ndarray, awkward0.VirtualArray)) for x in a._contents.values())

    def plan_edit(self, ctx, w, handles, h, op, n, view, names, given, kept):
        a = h.a
        name = op["op"]

        def done(change):
            def after(res):
                change()
                h.edits += 1
            return after

        if name == "setcol":
            c, spec = op["c"], op["spec"]
            arr = S.build(spec, w)
            self.given(given, arr, spec)
            src = arr.tolist() if op.get("src") == "list" and isinstance(arr, numpy.ndarray) and len(arr) else arr

            def call():
                a[c] = src
            return call, (Error if view else None), done(lambda: h.cols.__setitem__(c, self.column(spec))), set()
        if name == "setscalar":
            c, v = op["c"], op["i"] + 0.5

            def call():
                a[c] = v
            return call, (Error if view else None), done(lambda: h.cols.__setitem__(c, [[v] * n, set()])), (None if not self.typed(w, h) or not h.cols else set())
        if name == "setfrom":
            # a column of another handle
            o = handles[op["i"] % len(handles)]
            if not o.cols:
                return (None,) * 4
            m = list(o.cols)[op["i"] % len(o.cols)]
            vals = [o.col(m), (set() if o.rows is not None else set(o.cols[m][1]))]

            def call():
                a[op["c"]] = o.a[m]
            return call, (Error if view else None), done(lambda: h.cols.__setitem__(op["c"], vals)), None
        if name == "setcols":
            cs, specs = op["cs"], op["specs"]
            src = awkward0.Table()
            for i, sp in enumerate(specs):
                arr = S.build(sp, w)
                self.given(given, arr, sp)
                src["c%d" % i] = arr

            def call():
                a[cs] = src

            def change():
                for c, sp in zip(cs, specs):
                    h.cols[c] = self.column(sp)
            return call, (Error if view or len(cs) != len(specs) else None), done(change), set()
        if name == "setbad":
            def call():
                if op["i"] % 3 == 0:
                    a[[op["c"], "q"]] = numpy.arange(n)
                elif op["i"] % 3 == 1:
                    a[3] = numpy.arange(n)
                else:
                    a[[op["c"], "q"]] = awkward0.Table(p=numpy.arange(n))
            return call, Error, None, None
        cs = [op["c"]] if name == "delcol" else op["cs"]

        def call():
            if name == "delcol":
                del a[cs[0]]
            else:
                del a[cs]

        def change():
            for c in cs:
                del h.cols[c]
        return call, (Error if view or any(c not in h.cols for c in cs) else None), done(change), set()

    @staticmethod
    def caller(a, index):
        """the caller's index array is the caller's own"""
        copied = index.copy()
        out = a[index]
        if not numpy.array_equal(copied, index):
            raise Violation("C18:given", "the index array {0} was changed to {1}".format(copied.tolist(), index.tolist()))
        if len(index):
            index[:] = 0        # whatever the caller does with it from now on
        return out

    @staticmethod
    def lazily(f):
        return Box(f())

    # ------------------------------------------------------------------ tables inside other arrays

    def wrap(self, plan, ctx):
        kind, counts, n = plan["kind"], plan["counts"], plan["n"]
        starts = [sum(counts[:i]) for i in range(len(counts))]
        t = awkward0.Table()
        cols = OrderedDict()
        for c, sp in plan["cols"]:
            t[c] = S.build(sp)
            cols[c] = S.norm(S.pyvalue(sp))
        m = min(len(v) for v in cols.values())
        if kind == "jag" and (sum(counts) != m or len(counts) != n) or kind != "jag" and m != n:
            raise PlanInvalid("lengths")
        cut = plan["cut"]
        if not 0 <= cut <= n or sorted(plan["perm"]) != list(range(n)):
            raise PlanInvalid("cut")
        mask = [i % 3 == 0 for i in range(n)]
        if kind == "jag":
            a = awkward0.JaggedArray.fromcounts(counts, t)
            put = lambda arr: awkward0.JaggedArray.fromcounts(counts, arr)
            bad = lambda arr: awkward0.JaggedArray.fromcounts([x + (1 if i == 0 else 0) for i, x in enumerate(counts)], numpy.arange(sum(counts) + 1))
            view = lambda v: [v[s:s + k] for s, k in zip(starts, counts)]
        elif kind == "msk":
            a = awkward0.MaskedArray(numpy.array(mask, dtype=bool), t, maskedwhen=True)
            put = lambda arr: arr
            bad = None
            view = lambda v: [None if b else x for b, x in zip(mask, v)]
        elif kind == "chk":
            a = awkward0.ChunkedArray([t[:cut].deepcopy(), t[cut:].deepcopy()])
            put = lambda arr: awkward0.ChunkedArray([arr[:cut], arr[cut:]])
            bad = lambda arr: awkward0.ChunkedArray([arr[:cut], arr[cut:], arr[:1]])
            view = lambda v: v
        elif kind == "uni":
            tags = [0 if i < cut else 1 for i in range(n)]
            if cut in (0, n):
                return
            a = awkward0.UnionArray.fromtags(numpy.array(tags, dtype="u1"), [t[:cut].deepcopy(), t[cut:].deepcopy()])
            put = lambda arr: arr
            bad = lambda arr: arr[: n - 1]
            view = lambda v: v
        else:
            a = awkward0.IndexedArray(numpy.array(plan["perm"]), t)
            put = lambda arr: arr
            bad = lambda arr: arr[: n - 1]
            cols = OrderedDict((c, [v[i] for i in plan["perm"]]) for c, v in cols.items())
            view = lambda v: v

        def expected():
            rows = [dict((c, v[i]) for c, v in cols.items()) for i in range(m)]
            return view(rows)

        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            ctx.sched("op", step, name)
            vals = []
            for sp in op["vs"]:
                v = S.norm(S.pyvalue(sp))
                if len(v) != m:
                    raise PlanInvalid("lengths")
                vals.append((S.build(sp), v))
            cs = op["cs"]
            err = None
            refuse = False
            new = OrderedDict(cols)
            isbad = bad is not None and op["bad"] is not None
            try:
                if name == "set":
                    arr = put(vals[0][0])
                    if isbad:
                        arr, refuse = bad(vals[0][0]), True
                    new[cs[0]] = vals[0][1]
                    a[cs[0]] = arr
                elif name == "sets":
                    refuse = len(cs) != 2
                    parts = [put(x) for x, _ in vals]
                    if isbad:
                        if kind in ("uni", "idx", "chk"):
                            continue
                        parts[op["bad"]] = bad(vals[op["bad"]][0])
                        refuse = True
                    for c, (_, v) in zip(cs, vals):
                        new[c] = v
                    if kind == "chk":
                        src = awkward0.ChunkedArray([awkward0.Table(p=vals[0][0][:cut], q=vals[1][0][:cut]), awkward0.Table(p=vals[0][0][cut:], q=vals[1][0][cut:])])
                    else:
                        src = Zipped(parts)
                    a[cs] = src
                elif name == "del":
                    refuse = cs[0] not in cols
                    new.pop(cs[0], None)
                    del a[cs[0]]
                elif name == "dels":
                    refuse = any(c not in cols for c in cs)
                    for c in cs:
                        new.pop(c, None)
                    del a[cs]
            except Violation:
                raise
            except Exception as e:
                err = e
            ctx.checks += 1
            ctx.log(step, name, "raised " + type(err).__name__ if err is not None else "ok")
            if err is not None and not refuse:
                raise Violation("C18:wrap-raises", "{0} {1}: {2}".format(kind, self.shown(op), short(err)))
            if err is None and refuse:
                raise Violation("C18:wrap-accepted", "{0} {1} should be refused".format(kind, self.shown(op)))
            if refuse:
                ctx.probe("wrap-refused")
                ctx.nontrivial = True
            elif name != "read":
                cols = new
                if not cols:
                    return
            if list(a.columns) != list(cols):
                raise Violation("C18:wrap-columns", "{0} {1}{2}: the columns are {3}, expected {4}".format(kind, self.shown(op), " (refused)" if refuse else "", list(a.columns), list(cols)))
            got = S.norm(a)
            if not S.same(got, expected()):
                raise Violation("C18:wrap-value", "{0} {1}{2}: {3}, expected {4}".format(kind, self.shown(op), " (refused)" if refuse else "", S.show(got), S.show(expected())))


class Box(object):
    """a result that is not looked at yet"""
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return "(not looked at)"


class Zipped(object):
    """columns side by side, as unzip gives them"""
    def __init__(self, parts):
        self.parts = parts
        self.shape = parts[0].shape

    def unzip(self):
        return tuple(self.parts)


CHECK = C18()

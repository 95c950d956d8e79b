"""C03: column edits of a lazy array survive reloading."""
import gc
from collections import OrderedDict

import awkward0
import numpy

from dst import spec as S
from dst.c01 import gen_cfg
from dst.core import Check, PlanInvalid, SimFault, Violation, short
from dst.lazy import World

NAMES = ["x", "y", "z", "w"]
EXC = ["io", "key", "mem", "value", "index", "type", "attr", "interrupt"]


def gen_column(rng, n, ser, kinds=("num", "num", "num", "str", "jag")):
    k = rng.pick(kinds)
    if k == "num":
        return S.gen_leaf(rng, n, ser, rng.pick(["i8", "f8", "i4"]))
    if k == "str":
        return {"k": "str", "v": ["s%d" % ser.next() for _ in range(n)]}
    counts = S.gen_counts(rng, n)
    return {"k": "jag", "counts": counts, "lead": 0, "tail": 0, "style": "offsets", "c": S.gen_leaf(rng, sum(counts), ser, "i8")}


def pieces(sp, sizes):
    out, pos = [], 0
    for m in sizes:
        out.append(dict(sp, v=sp["v"][pos:pos + m]))
        pos += m
    return out


class C03(Check):
    prop = "C03"
    quick_runs = 30000
    thorough_runs = 900000
    rule = "non-trivial: data were dropped and loaded again, or a failure fired, after an edit; distinct by event-sequence hash"
    real = ["VirtualArray edits", "ChunkedArray edits", "Table", "JaggedArray"]
    stub = ["cache", "loaders"]
    assumptions = ["columns have the length of the table", "loaders are pure; some return the very same Table object on every call"]
    required_probes = ["reload-after-edit", "edit-failed", "copy", "del", "set", "setlist", "dellist"]

    def gen(self, rng, tier):
        ser = S.Serial()
        kind = rng.wpick([("tab", 5), ("jag", 2), ("chk", 2)])
        n = rng.randrange(1, 6)
        if kind == "jag":
            shape = S.gen_counts(rng, n)
            flat = sum(shape)
        elif kind == "chk":
            shape = [m for m in S.split(rng, n) if m] or [n]
            flat = n
        else:
            shape, flat = [], n
        ck = ("num",) if kind == "chk" else ("num", "num", "str", "jag")
        if flat == 0:
            ck = ("num",)
        cols = [[c, gen_column(rng, flat, ser, ck), int(rng.chance(0.2))] for c in NAMES[:rng.randrange(1, 4)]]
        ops = []
        faulty = rng.chance(0.6)
        for _ in range(rng.randrange(3, 14)):
            name = rng.wpick([("set", 5), ("setlist", 1.5), ("del", 3), ("dellist", 1), ("read", 4), ("readall", 3), ("columns", 1), ("type", 1), ("len", 1),
                              ("row", 1), ("slice", 1), ("evictall", 3), ("copy", 1.5), ("deepcopy", 0.5), ("drop", 0.7), ("baddel", 0.7), ("badset", 0.5), ("cols", 0.5)])
            op = {"op": name, "on": rng.randrange(4), "c": rng.pick(NAMES)}
            if name == "set":
                op["data"] = gen_column(rng, flat, ser, ck)
                op["how"] = rng.wpick([("array", 4), ("list", 1), ("scalar", 1), ("lazy", 1.5)])
            elif name in ("setlist", "dellist", "cols"):
                m = rng.randrange(1, 3)
                op["cs"] = rng.sample(NAMES, m)
                if name == "setlist":
                    op["datas"] = [gen_column(rng, flat, ser, ck) for _ in range(m)]
            elif name == "row":
                op["i"] = rng.randrange(8)
            if faulty and name in ("set", "setlist", "del", "dellist", "read", "readall", "type", "copy") and rng.chance(0.35):
                op["fault"] = {"exc": rng.pick(EXC), "at": rng.wpick([(0, 5), (1, 3), (2, 2), (4, 1)]), "times": rng.pick([1, 1, 1, 99]),
                               "kinds": rng.pick([["gen"], ["cacheget"], ["cacheset"], ["gen", "cacheget", "cacheset"]])}
            ops.append(op)
        cfg = gen_cfg(rng)
        cfg["opts"] = [o & ~8 for o in cfg["opts"]]
        return {"cfg": cfg, "kind": kind, "shape": shape, "cols": cols, "same": int(rng.chance(0.3)), "ops": ops,
                "ids": rng.pick(["now", "now", "now", "later", "never"])}

    # ------------------------------------------------------------------ shapes
    def wrap(self, sp, lazy=False):
        """the specification of a flat column in the shape of the array"""
        if self.kind == "tab":
            return {"k": "vir", "c": sp} if lazy else sp
        if self.kind == "jag":
            return {"k": "jag", "counts": self.shape, "lead": 0, "tail": 0, "style": "offsets", "c": {"k": "vir", "c": sp} if lazy else sp}
        return {"k": "chk", "cs": [({"k": "vir", "c": p} if lazy else p) for p in pieces(sp, self.shape)], "known": 0}

    def root(self, model, lazycols=()):
        def table(cols):
            return {"k": "tab", "cols": cols}
        cols = [[c, {"k": "vir", "c": sp} if c in lazycols else sp] for c, sp in model.items()]
        if self.kind == "tab":
            return {"k": "vir", "c": table(cols)}
        if self.kind == "jag":
            return {"k": "vir", "c": {"k": "jag", "counts": self.shape, "lead": 0, "tail": 0, "style": "offsets", "c": table(cols)}}
        parts = [pieces(sp, self.shape) for sp in model.values()]
        return {"k": "chk", "known": 0, "cs": [{"k": "vir", "c": table([[c, p[i]] for c, p in zip(model, parts)])} for i in range(len(self.shape))]}

    def expect(self, model):
        return S.norm(S.pyvalue(S.strip(self.root(model))))

    def execute(self, plan, ctx):
        w = World(ctx, plan["cfg"])
        self.kind, self.shape = plan["kind"], plan["shape"]
        base = OrderedDict((c, sp) for c, sp, lazy in plan["cols"])
        if not base or len(set(S.length(sp) for sp in base.values())) != 1 or len(base) != len(plan["cols"]):
            raise PlanInvalid("columns")
        n = S.length(list(base.values())[0])
        if (self.kind == "jag" and sum(self.shape) != n) or (self.kind == "chk" and (sum(self.shape) != n or 0 in self.shape)):
            raise PlanInvalid("shape")
        rootspec = self.root(base, [c for c, sp, lazy in plan["cols"] if lazy and self.kind != "chk"])
        handles = [(S.build(rootspec, w), OrderedDict(base))]
        if plan.get("same"):
            # the sources hand out the same object every time
            made = {}
            for node in w.nodes:
                def load(node=node, real=node._load):
                    w.calls.append(node.number)
                    w.event("gen", node.number)
                    if node.number not in made:
                        made[node.number] = S.build(node.sp["c"], w)
                    return made[node.number]
                node._load = load
        edited = False
        for step, op in enumerate(plan["ops"]):
            name = op["op"]
            k = op.get("on", 0) % len(handles)
            a, model = handles[k]
            new = OrderedDict(model)
            if name == "evictall":
                if hasattr(w.cache, "evict_all"):
                    w.cache.evict_all()
                    if edited:
                        ctx.probe("reload-after-edit")
                continue
            if name == "drop":
                if len(handles) > 1:
                    del handles[k]
                    a = None
                continue
            if name in ("copy", "deepcopy") and len(handles) >= 4:
                continue
            if any(S.length(d) != n for d in ([op["data"]] if "data" in op else op.get("datas", []))):
                raise PlanInvalid("data")
            c = op.get("c", "x")
            call, result, mustfail, edit = None, None, None, True
            if name == "set":
                sp = op["data"]
                how = op.get("how", "array")
                if how == "list" and (sp["k"] != "num" or self.kind != "tab" or not sp["v"]):
                    how = "array"
                if how == "scalar" and (sp["k"] != "num" or self.kind != "tab" or not sp["v"] or not model):
                    how = "array"
                if how == "scalar":
                    val = sp["v"][0]
                    sp = {"k": "num", "dt": "f8" if isinstance(val, float) else "i8", "v": [val] * n}
                    what = val
                elif how == "list":
                    sp = dict(sp, dt="f8" if isinstance(sp["v"][0], float) else "i8")
                    what = list(sp["v"])
                else:
                    what = S.build(self.wrap(sp, how == "lazy"), w)
                new[c] = sp

                def call(a=a, c=c, what=what):
                    a[c] = what
                ctx.probe("set")
            elif name == "setlist":
                cs = op["cs"]
                if len(set(cs)) != len(cs) or len(op["datas"]) != len(cs):
                    raise PlanInvalid("setlist")
                if self.kind != "tab":
                    continue
                what = awkward0.Table()
                for q, d in zip(cs, op["datas"]):
                    what[q] = S.build(d)
                    new[q] = d

                def call(a=a, cs=cs, what=what):
                    a[cs] = what
                ctx.probe("setlist")
            elif name in ("del", "dellist"):
                cs = [c] if name == "del" else op["cs"]
                if any(q not in model for q in cs):
                    mustfail = KeyError
                elif len(model) <= len(cs):
                    continue
                else:
                    for q in cs:
                        new.pop(q)

                def call(a=a, cs=cs, name=name):
                    if name == "del":
                        del a[cs[0]]
                    else:
                        del a[cs]
                ctx.probe(name)
            elif name == "baddel":
                mustfail = Exception

                def call(a=a):
                    del a["nosuch"]
            elif name == "badset":
                mustfail = Exception
                what = awkward0.Table()
                what["q"] = S.build(list(model.values())[0])

                def call(a=a, what=what):
                    a[["q", "r"]] = what
            elif name in ("copy", "deepcopy"):
                edit = False

                def call(a=a, name=name):
                    return a.copy() if name == "copy" else a.deepcopy()
            else:
                edit = False
                call, result = self.reader(name, op, a, model)
                if call is None:
                    continue
            ctx.sched("op", step, name, k, c if name in ("set", "del", "read") else "")
            before = len(w.calls)
            w.arm(op.get("fault"))
            err = got = None
            try:
                got = call()
            except Exception as e:
                err = e
            except BaseException as e:
                if not isinstance(e, SimFault):
                    raise
                err = e
            fired = w.disarm()
            ctx.checks += 1
            if fired:
                ctx.nontrivial = True
            if err is not None:
                ctx.log(step, name, "raises", type(err).__name__)
                if not fired and mustfail is None:
                    raise Violation("C03:raises", "step {0}: {1} raised {2}".format(step, name, short(err)))
                ctx.probe("edit-failed" if edit else "read-failed")
                err = fired = None
                a = call = None
            else:
                if mustfail is not None:
                    raise Violation("C03:accepted", "step {0}: {1} of {2} did not fail".format(step, name, op.get("c") if name == "del" else op.get("cs")))
                if name in ("copy", "deepcopy"):
                    handles.append((got, OrderedDict(model)))
                    ctx.probe("copy")
                elif edit:
                    handles[k] = (a, new)
                    edited = True
                    if name == "set" and how == "list":
                        what.append("changed by the caller")
                        what[0] = -1
                elif not S.same(got, result):
                    raise Violation("C03:value", "step {0}: {1} of {2} gives {3}, expected {4}".format(step, name, op.get("c", ""), S.show(got), S.show(result)))
                if edited and len(w.calls) > before:
                    ctx.probe("reload-after-edit")
                    ctx.nontrivial = True
            what = got = None
        for k, (a, model) in enumerate(handles):
            for name in ("columns", "readall", "type"):
                call, result = self.reader(name, {}, a, model)
                if call is None:
                    continue
                try:
                    got = call()
                except Exception as err:
                    raise Violation("C03:final-raises", "array {0}: {1} raised {2}".format(k, name, short(err)))
                ctx.checks += 1
                ctx.log("final", k, name, S.show(got, 300))
                if not S.same(got, result):
                    raise Violation("C03:final", "array {0}: {1} gives {2}, expected {3}".format(k, name, S.show(got), S.show(result)))
            call = None

    def reader(self, name, op, a, model):
        rows = self.expect(model)
        if name == "read":
            c = op.get("c", "x")
            if c not in model:
                return None, None
            return (lambda: S.norm(a[c])), S.norm(S.pyvalue(self.wrap(model[c])))
        if name == "readall":
            return (lambda: S.norm(a)), rows
        if name == "columns":
            return (lambda: list(a.columns)), (list(model) if rows else (list(model) if self.kind != "chk" else []))
        if name == "len":
            return (lambda: len(a)), len(rows)
        if name == "row":
            if not rows:
                return None, None
            i = op.get("i", 0) % len(rows)
            return (lambda: S.norm(a[i])), rows[i]
        if name == "slice":
            return (lambda: S.norm(a[1:])), rows[1:]
        if name == "cols":
            cs = op.get("cs", [])
            if not cs or any(c not in model for c in cs):
                return None, None
            return (lambda: S.norm(a[cs])), self.expect(OrderedDict((c, model[c]) for c in cs))
        if name == "type":
            if self.kind == "chk":
                return None, None
            return (lambda: S.typeform(a.type)), S.typeform(awkward0.type.fromarray(S.build(S.strip(self.root(model)))))
        raise PlanInvalid("op")


CHECK = C03()

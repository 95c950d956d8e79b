"""C16: reading stored arrays never calls what the whitelist forbids.

Between a save and a read a hostile storage rewrites the description.  Tripwires
(a package that exists only for this check; its modules, functions and classes
record that they were imported or called), a scratch directory and an
independent reading of the whitelist's documentation judge what happens.
"""
import base64
import fnmatch
import importlib
import io
import json
import os
import sys
import types
import zipfile

import numpy

import awkward0
import awkward0.persist
from dst import spec as S
from dst import storage as G
from dst import store as T
from dst.c11 import C11
from dst.core import PlanInvalid, Violation, short

TRAP = None             # the recorder of the current run


class Trap(object):
    """fake modules that notice being imported and called"""
    names = ("simtrap", "simtrap.sub", "simtrap.side")

    def __init__(self):
        self.imported, self.called = [], []
        self.passed = []
        self.quiet = False

    def fire(self, path):
        if not self.quiet:
            self.called.append(path)

    # a finder and a loader
    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self, is_package=name == "simtrap")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        if not self.quiet:
            self.imported.append(name)
        fire = self.fire
        trap = self

        def wire(path, result=None):
            def f(*args, **kwargs):
                fire(path)
                if "whitelist" in kwargs:
                    trap.passed.append(kwargs["whitelist"])
                return args[0] if result is None and args else numpy.arange(5)
            f.__module__ = path[0]
            f.__qualname__ = ".".join(path[1:])
            f.__name__ = path[-1]
            return f

        for n in ("bad", "good_id", "good_array", "deep"):
            setattr(module, n, wire([name, n], True if n == "good_array" else None))
        for c in ("Box", "Good"):
            cls = type(c, (object,), {"make": staticmethod(wire([name, c, "make"])), "__module__": name, "__init__": lambda self, *a, **k: fire([self.__module__] + type(self).__qualname__.split('.'))})
            cls.__repr__ = lambda self: "<tripwire>"
            cls.Inner = type("Inner", (object,), {"make": staticmethod(wire([name, c, "Inner", "make"])), "__module__": name})
            setattr(module, c, cls)
        module.instance = module.Box.__new__(module.Box)
        module.osmod = os           # modules import others

    def __enter__(self):
        global TRAP
        TRAP = self
        self.forget()
        sys.meta_path.insert(0, self)
        return self

    def forget(self):
        for n in self.names:
            sys.modules.pop(n, None)

    def __exit__(self, *args):
        global TRAP
        TRAP = None
        sys.meta_path.remove(self)
        self.forget()


# what no whitelist that is called harmless can contain
TRAPS = [["simtrap", "bad"], ["simtrap", "good_id"], ["simtrap", "good_array"], ["simtrap.sub", "deep"], ["simtrap", "Box", "make"], ["simtrap", "Good", "make"],
         ["simtrap", "Box"], ["simtrap.side", "good_id"], ["simtrap", "Good", "Inner", "make"], ["simtrap", "instance", "make"]]
DANGER = TRAPS + [["os", "getcwd"], ["os", "remove"], ["builtins", "eval"], ["builtins", "open"], ["builtins", "getattr"], ["builtins", "__import__"], ["pickle", "loads"],
                  ["importlib", "import_module"], ["io", "open"], ["subprocess", "list2cmdline"], ["functools", "partial"], ["types", "FunctionType"],
                  ["awkward0.persist", "topython"], ["awkward0.persist", "spec2function"], ["awkward0.persist", "save"], ["awkward0.persist", "load"],
                  ["awkward0.persist", "deserialize"], ["awkward0.persist", "serialize"], ["awkward0.persist", "hdf5"], ["awkward0.persist", "pickle", "loads"],
                  ["awkward0.persist", "importlib", "import_module"], ["awkward0.persist", "os", "getcwd"], ["awkward0.util", "numpy", "save"],
                  ["awkward0", "persist", "topython"], ["awkward0", "toparquet"], ["awkward0", "save"], ["numpy", "load"], ["numpy", "save"], ["numpy", "memmap"], ["numpy", "fromfile"],
                  ["numpy", "loadtxt"], ["numpy", "genfromtxt"], ["numpy", "savetxt"], ["numpy", "fromregex"], ["awkward0", "numpy", "fromfile"], ["awkward0", "numpy", "load"],
                  ["awkward0", "numpy", "save"], ["awkward0.util", "numpy", "fromfile"], ["awkward0", "load"], ["awkward0", "hdf5"], ["awkward0", "fromparquet"],
                  ["awkward0.arrow", "toparquet"], ["awkward0.arrow", "fromparquet"], ["lzma", "open"], ["os", "listdir"], ["os", "mkdir"], ["os", "unlink"],
                  ["io", "FileIO"], ["builtins", "compile"], ["builtins", "vars"], ["awkward0", "persist", "os", "getcwd"], ["awkward", "persist", "load"], ["awkward", "load"],
                  ["awkward", "numpy", "fromfile"], ["awkward.persist", "topython"], ["uproot.tree", "os", "getcwd"]]
ANYTHING = [x for x in DANGER if x not in TRAPS]
SHORT = [["simtrap"], ["awkward0"], ["numpy"], ["builtins"], ["awkward0.arrow"], ["awkward0.persist"], []]
HOLES = [["simtrap", "osmod", "getcwd"], ["simtrap.sub", "osmod", "getcwd"], ["awkward0", "JaggedArray", "__init__", "__globals__", "get"], ["awkward0", "JaggedArray", "__init__", "__builtins__", "get"],
         ["awkward0", "Table", "__init__", "__func__", "__globals__", "get"], ["awkward0", "VirtualArray", "__subclasses__"],
         ["awkward0", "__builtins__", "get"], ["awkward0.persist", "json2type", "__globals__", "get"], ["numpy", "frombuffer", "__self__", "fromfile"],
         ["builtins", "str", "__base__", "__subclasses__"], ["awkward0", "numpy", "frombuffer", "__self__", "save"], ["awkward0.arrow", "_ParquetFile", "fromjson", "__func__", "__globals__", "get"],
         ["awkward0", "JaggedArray", "BITMASKTYPE", "type", "tofile"], ["awkward0", "Table", "columns", "fget"]]
OTHER = [["awkward0", "fromiter"], ["numpy", "arange"], ["awkward0.array.jagged", "JaggedArray"], ["awkward0", "JaggedArray", "fromiter"], ["awkward0", "Table"],
         ["zlib", "compress"], ["builtins", "len"], ["dst.store", "load"], ["awkward0", "nosuchthing"], ["nosuchmodule", "x"], ["awkward0.util", "numpy", "frombuffer"]]

EXTRA = [["simtrap", "good*"], ["simtrap", "Good"], ["simtrap.s*", "*"], ["simtrap"], ["simtrap", "Box", "make"], ["simtrap", "B*"], ["awkward0.persist", "topython"], ["*", "good_id"],
         ["simtrap.sub"], ["simtrap", "Good", "*", "make"], ["awkward0.persist", "spec2function"]]
WHITES = ["default", "plain", "star", "extra", "extra", "extra", "only", "promoted-string", "promoted-list", "none"]


def inforce(plan):
    """(argument to pass or None, the list of patterns it stands for)"""
    plain = [list(x) for x in awkward0.persist.whitelist if x != T.WHITE]
    kind, k = plan["white"], plan["extra"]
    extra = [EXTRA[i % len(EXTRA)] for i in k]
    if kind == "default":
        return None, plain + [T.WHITE]
    if kind == "plain":
        return plain, plain
    if kind == "star":
        return "*", [["*"]]
    if kind == "extra":
        return plain + [T.WHITE] + extra, plain + [T.WHITE] + extra
    if kind == "only":
        return extra, extra
    if kind == "promoted-string":
        return "simtrap*", [["simtrap*"]]
    if kind == "promoted-list":
        return extra[0], [extra[0]]
    if kind == "none":
        return [], []
    raise PlanInvalid("white")


def allowed(path, whites, default):
    """the documentation's rules"""
    if not isinstance(path, list) or not path or not all(isinstance(x, str) for x in path):
        return False
    base = [x for x in whites if x not in default]
    for white in whites:
        if white == ["*"]:
            return True
        if len(path) < len(white) or not all(fnmatch.fnmatchcase(n, p) for n, p in zip(path, white)):
            continue
        if path in DANGER and white not in base:
            continue                # a default whitelist must not contain it
        full = list(white) + ["*"] * len(path)
        if any(n.startswith("__") and not p.startswith("__") for n, p in list(zip(path, full))[1:]):
            continue
        if not classesonly(path, len(white)):
            continue
        return True
    return False


def classesonly(path, named):
    """what the pattern does not name is looked up in classes and modules only"""
    if TRAP is not None:
        TRAP.quiet = True
    try:
        x = importlib.import_module(path[0])
        for i, n in enumerate(path[1:], 1):
            if i >= named and not isinstance(x, (type, types.ModuleType)):
                return False
            x = getattr(x, n)
            if isinstance(x, types.ModuleType) and not (i == 1 and n == "numpy"):
                return False
        return True
    except Exception:
        return True                 # it cannot be looked up at all: another error
    finally:
        if TRAP is not None:
            TRAP.quiet = False
            TRAP.forget()


# --------------------------------------------------------------------------- descriptions

def kids(node):
    """(container, key) of the subexpressions"""
    if not isinstance(node, dict):
        return
    if "call" in node:
        for i in range(len(node.get("args", []))):
            yield node["args"], i
        for k in sorted(node.get("kwargs", {})):
            yield node["kwargs"], k
    elif "list" in node or "tuple" in node:
        seq = node.get("list", node.get("tuple"))
        for i in range(len(seq)):
            yield seq, i
    elif "dict" in node:
        for k in sorted(node["dict"]):
            yield node["dict"], k
    elif "pairs" in node:
        for i in range(len(node["pairs"])):
            yield node["pairs"][i], 1


def places(schema):
    out = [(schema, "schema")]
    i = 0
    while i < len(out):
        c, k = out[i]
        out.extend(kids(c[k]))
        i += 1
    return out


def functions(node, lazily=False):
    """every function that reading this expression looks up (lazily: or reading what it gives)"""
    for c, k in places({"schema": node}):
        x = c[k]
        if not isinstance(x, dict):
            continue
        if "call" in x:
            yield x["call"]
            if x["call"] in (["awkward0.persist", "json2type"], ["awkward.persist", "json2type"]):
                for a in x.get("args", [])[:1]:
                    for f in typefunctions(a.get("json") if isinstance(a, dict) else None):
                        yield f
        elif any(n in x for n in ("read", "list", "tuple", "dict", "pairs", "dtype")):
            pass
        elif "function" in x:
            yield x["function"]
        elif "json" in x:
            if lazily:
                for f in typefunctions(x["json"]):
                    yield f
        elif "python" in x:
            if "trap" in x:
                yield x["trap"]


def typefunctions(x):
    if isinstance(x, dict):
        if "function" in x:
            yield x["function"]
        for y in x.values():
            for f in typefunctions(y):
                yield f
    elif isinstance(x, list):
        for y in x:
            for f in typefunctions(y):
                yield f


def call(path, *args, **more):
    return dict({"call": path, "args": list(args)}, **more)


def J(x):
    return {"json": x}


def payload(path, old):
    """a pickle that calls path(5)"""
    if old or not all(path[1:]):
        raw = b"c" + path[0].encode() + b"\n" + ".".join(path[1:]).encode() + b"\n(I5\ntR."
    else:
        m, n = path[0].encode(), ".".join(path[1:]).encode()
        raw = b"\x80\x04\x8c" + bytes([len(m)]) + m + b"\x8c" + bytes([len(n)]) + n + b"\x93K\x05\x85R."
    return base64.b64encode(raw).decode("ascii")


def arguments(f, scratch):
    """with these the call works"""
    there = J(os.path.join(scratch, "bait"))
    new = J(os.path.join(scratch, "written"))
    raw = call(["builtins", "bytes"], J(list(b"I5\n.....")))
    last = f[-1] if f else None
    if last in ("open", "fromfile", "memmap", "loadtxt", "genfromtxt", "FileIO", "remove", "unlink"):
        return [there]
    if last == "listdir":
        return [J(scratch)]
    if last == "mkdir":
        return [new]
    if last == "load":
        return [J(os.path.join(scratch, "bait.npy" if "numpy" in f else "bait.awkd"))]
    if last == "fromparquet":
        return [J(os.path.join(scratch, "bait.parquet"))]
    if last == "fromregex":
        return [there, J("(.)"), {"dtype": [["x", "S1"]]}]
    if last in ("save", "savetxt"):
        return [new, J([1, 2])]
    if last == "toparquet":
        return [new, call(["numpy", "frombuffer"], raw, {"dtype": "uint8"})]
    if last == "hdf5":
        return [{"dict": {}}]
    if last == "serialize":
        return [J(5), {"dict": {}}]
    if last == "deserialize":
        return [{"dict": {"": J(json.dumps({"awkward0": "0", "schema": J(5)}))}}, J("")]
    if last == "spec2function":
        return [J(["builtins", "str"])]
    if last == "getattr":
        return [J("x"), J("upper")]
    if last == "partial":
        return [{"function": ["builtins", "str"]}]
    if last == "list2cmdline":
        return [J(["a"])]
    if last == "loads":
        return [raw]
    if last == "compile":
        return [J("1"), J("x"), J("eval")]
    if last == "vars":
        return [{"function": ["builtins", "str"]}]
    return None


BAIT = None


def bait(directory, open):
    """files that may be there to be read"""
    global BAIT
    if BAIT is None:
        import pyarrow
        import pyarrow.parquet
        one, two, three = io.BytesIO(), io.BytesIO(), io.BytesIO()
        numpy.save(one, numpy.arange(3))
        with zipfile.ZipFile(two, "w") as f:
            f.writestr(zipfile.ZipInfo(".json"), json.dumps({"awkward0": "0", "schema": J(5)}))
        pyarrow.parquet.write_table(pyarrow.table({"x": [1, 2]}), three)
        BAIT = [("bait", b"1 2 3 4\n5 6 7 8\n"), ("bait.npy", one.getvalue()), ("bait.awkd", two.getvalue()), ("bait.parquet", three.getvalue())]
    for n, x in BAIT:
        with open(os.path.join(directory, n), "wb") as f:
            f.write(x)


def evil(op, scratch):
    """(expression, function that must have been called if everything in it is allowed)"""
    f = [TRAPS, TRAPS, DANGER, SHORT, HOLES, OTHER][op["from"] % 6]
    f = list(f[op["f"] % len(f)])
    how = op["how"]
    trap = f if f in TRAPS else None
    arg = {"os": J(os.path.join(scratch, "nothing")), "builtins": J("__import__('simtrap').bad(5)"), "importlib": J("simtrap.sub")}.get(f[0] if f else "", J(5))
    if f == ["awkward0.persist", "topython"] or f == ["awkward0", "persist", "topython"]:
        arg = J(payload(["simtrap", "bad"], True))
    args = arguments(f, scratch) or [arg]
    arg = args[0]
    if f and f[-1] == "tofile":
        return call(f, call(f[:-1], J(65)), J(os.path.join(scratch, "written"))), None
    if how == "call":
        return call(f, *args) if f[-1:] != ["getcwd"] else call(f), trap
    if how == "wrap":
        return None, trap
    if how == "lazy":
        return call(["awkward0", "VirtualArray"], {"function": f}, {"tuple": args}), None
    if how == "objects":
        return call(["awkward0", "ObjectArray"], J([1, 2, 3]), {"function": f}), None
    if how == "function":
        return {"function": f}, None
    if how == "python":
        if len(f) < 2:
            f = ["simtrap", "bad"]
            trap = f
        return {"python": payload(f, op["bit"] and len(f) == 2), "trap": f}, trap
    if how == "topython":
        return call(["awkward0.persist", "topython"], J(payload(["simtrap", "bad"], op["bit"]))), None
    if how == "spec2function":
        return call(["awkward0", "VirtualArray"], call(["awkward0.persist", "spec2function"], J(f), J("*")), {"tuple": [arg]}), None
    if how == "deserialize":
        inner = json.dumps({"awkward0": "0", "schema": call(["simtrap", "bad"], J(5))})
        return call(["awkward0.persist", "deserialize"], {"dict": {"": J(inner)}}, J(""), J("*")), None
    if how == "globals":
        hole = HOLES[op["f"] % len(HOLES)]
        return call(["awkward0", "VirtualArray"], call(hole, J("eval")), {"tuple": [J("__import__('simtrap').bad(5)")]}), None
    if how == "type":
        t = {"function": f}
        if op["bit"]:
            t = {"takes": 3, "to": t}
        more = [{}, {"whitelistable": True}, {"kwargs": {"whitelist": J("*")}}, {"whitelistable": True, "kwargs": {"whitelist": J([["simtrap"]])}}][op["k"] % 4]
        args = [J(t)] + ([J("*")] if op["k"] % 5 == 4 else [])
        json2type = call(["awkward0.persist", "json2type"], *args, **more)
        return call(["awkward0", "VirtualArray"], json2type, {"tuple": [arg]}), None
    if how == "typelazy":
        return call(["awkward0", "ObjectArray"], {"list": [J({"function": f})]}, {"function": ["awkward0.persist", "json2type"]}, {"tuple": [J("*")]}), None
    if how == "whitelistable":
        return call(f, arg, whitelistable=True), trap
    raise PlanInvalid("how")


HOWS = ["call", "call", "wrap", "wrap", "lazy", "objects", "function", "python", "python", "topython", "spec2function", "deserialize", "globals", "globals", "type", "type", "typelazy", "whitelistable"]


class C16(C11):
    prop = "C16"
    quick_runs = 16000
    thorough_runs = 300000
    kinds = [("map", 5), ("zip", 3), ("obj", 2), ("h5", 2)]
    rule = "non-trivial: an altered description, or one that the whitelist does not fully allow, was read; distinct by event-sequence hash"
    stub = C11.stub + ["a package of tripwires that stands for everything that may be called", "the storage rewrites descriptions"]
    assumptions = ["what an allowed function does with its arguments is not judged, except that nothing is written to the disk",
                   "whitelist patterns allow what is in the class or module they name, but nothing through names with double underscores"]
    required_probes = ["altered", "refused", "allowed-called", "wrapped", "unaltered-plain", "star", "pickled-args", "whitelist-passed"]

    def gencfg(self, rng, tier):
        cfg = super(C16, self).gencfg(rng, tier)
        cfg["opts"] = [o | rng.pick([0, 0, 32]) for o in cfg["opts"]]
        return cfg

    def genops(self, rng, tier):
        ops = []
        for _ in range(rng.randrange(0, 3)):
            ops.append(self.genmake(rng))
        for _ in range(rng.randrange(1, 3)):
            ops.append(self.gensave(rng))
        for _ in range(rng.randrange(2, 8)):
            white = {"white": rng.pick(WHITES), "extra": [rng.randrange(len(EXTRA)) for _ in range(rng.randrange(1, 4))]}
            if rng.chance(0.75):
                ops.append(dict(white, op="alter", name=rng.randrange(4), at=rng.randrange(40), how=rng.pick(HOWS), f=rng.randrange(5040),
                                bit=rng.randrange(2), k=rng.randrange(20), put=rng.pick(["replace", "replace", "root", "root", "wrap", "repath", "kwarg", "arg"]), key=rng.randrange(3), **{"from": rng.randrange(6)}))
            elif rng.chance(0.7):
                ops.append(dict(white, op="readwith", name=rng.randrange(4)))
            else:
                ops.append(rng.pick([{"op": "restart"}, self.gensave(rng)]))
        return ops

    def execute(self, plan, ctx):
        with Trap() as trap:
            self.trap = trap
            super(C16, self).execute(plan, ctx)

    def step(self, step, op, ctx, w, back, pool, stored):
        if op["op"] in ("alter", "readwith"):
            names = sorted(stored)
            if names:
                name = names[op["name"] % len(names)]
                if op["op"] == "alter":
                    self.alter(op, ctx, w, back, stored, name)
                else:
                    arg, whites = inforce(op)
                    ctx.sched("readwith", op["white"], name)
                    self.judgeread(op, ctx, w, back, stored, name, arg, whites, self.getschema(back, name), False, None)
        else:
            super(C16, self).step(step, op, ctx, w, back, pool, stored)

    # ------------------------------------------------------------------ the hostile storage
    def getschema(self, back, name):
        kind = back.cfg["kind"]
        if kind == "map":
            raw = back.store.data[back.key(name)]
        elif kind == "h5":
            raw = back.file[name][[k for k in back.file[name] if k.endswith("json")][0]][()].tobytes()
        else:
            with zipfile.ZipFile(io.BytesIO(back.bytes())) as f:
                raw = f.read(name + back.options.get("schemasuffix", ".json"))
        return json.loads(bytes(raw).decode("ascii"))

    def putschema(self, back, name, schema):
        raw = json.dumps(schema).encode("ascii")
        kind = back.cfg["kind"]
        if kind == "map":
            back.store.data[back.key(name)] = raw
        elif kind == "h5":
            g = back.file[name]
            key = [k for k in g if k.endswith("json")][0]
            del g[key]
            g[key] = numpy.frombuffer(raw, dtype=numpy.uint8)
        else:
            out = io.BytesIO()
            with zipfile.ZipFile(io.BytesIO(back.bytes())) as f, zipfile.ZipFile(out, "w") as g:
                for i in f.infolist():
                    x = f.read(i.filename)
                    if i.filename == name + back.options.get("schemasuffix", ".json"):
                        x = raw
                    g.writestr(zipfile.ZipInfo(i.filename), x)
            back.drop()
            if kind == "obj":
                back.obj.seek(0)
                super(T.SimFileObj, back.obj).truncate(0)
                super(T.SimFileObj, back.obj).write(out.getvalue())
            else:
                with back.disk.saved["open"](back.real, "r+b") as f:
                    f.write(out.getvalue())
                    f.truncate()

    def alter(self, op, ctx, w, back, stored, name):
        arg, whites = inforce(op)
        before = self.getschema(back, name)
        schema = json.loads(json.dumps(before))
        node, trap = evil(op, w.disk.dir)
        where = places(schema)
        c, k = where[op["at"] % len(where) if op["put"] != "root" else 0]
        benign = False
        f = None
        if op["put"] == "wrap" or node is None:
            f = list(TRAPS[op["f"] % len(TRAPS)])
            c[k] = call(f, c[k])
            benign = f[-1] == "good_id" and not (c is not schema and isinstance(c, dict) and k in ("whitelist",))
            trap = f
            ctx.probe("wrapped")
        elif op["put"] == "repath" and isinstance(c[k], dict) and "call" in c[k] and "call" in node:
            c[k]["call"] = node["call"]
            trap = trap if node["call"] == trap else None
        elif op["put"] == "kwarg" and isinstance(c[k], dict) and "call" in c[k]:
            c[k].setdefault("kwargs", {})["type" if op["bit"] else "extra"] = node
        elif op["put"] == "arg" and isinstance(c[k], dict) and "call" in c[k]:
            c[k].setdefault("args", []).append(node)
        else:
            c[k] = node
        if op["key"] == 0:
            schema["awkward"] = schema.pop("awkward0")
        ctx.sched("alter", name, op["put"], op["how"], op["white"])
        self.putschema(back, name, json.loads(json.dumps(schema), object_hook=lambda d: {n: x for n, x in d.items() if n != "trap"}))
        bait(w.disk.dir, w.disk.saved["open"])
        try:
            ctx.probe("altered")
            ctx.nontrivial = True
            self.judgeread(op, ctx, w, back, stored, name, arg, whites, schema, True, trap, benign)
        finally:
            for n, _ in BAIT:
                if os.path.exists(os.path.join(w.disk.dir, n)):
                    w.disk.saved.get("remove", os.remove)(os.path.join(w.disk.dir, n))
            self.putschema(back, name, before)

    # ------------------------------------------------------------------ the judge
    def files(self, w):
        return sorted((n, os.path.getsize(os.path.join(w.disk.dir, n))) for n in os.listdir(w.disk.dir))

    def judgeread(self, op, ctx, w, back, stored, name, arg, whites, schema, altered, trap, benign=False):
        default = [list(x) for x in awkward0.persist.whitelist if x != T.WHITE]
        paths = list(functions(schema["schema"]))
        no = [p for p in paths if not allowed(p, whites, default)]
        t = self.trap
        t.forget()
        del t.called[:], t.imported[:], t.passed[:]
        files = self.files(w)
        # these run whatever they are told to
        anything = whites == [["*"]] or any(p in ANYTHING and allowed(p, whites, default) for p in paths)
        fresh = back.view(arg)
        got = failed = None
        try:
            got = fresh(name)
        except Violation as err:
            if not altered or benign:
                raise
            failed = err            # a loader was given other arguments
        except Exception as err:
            failed = err
        ctx.checks += 1
        ctx.log("read with", op["white"], "refused" if failed is not None else "done", "forbidden:", len(no), "called:", t.called)
        if not anything:
            self.calls(t, list(functions(schema["schema"], True)), whites, default)
        if no:
            if failed is None:
                raise self.v("not-refused", "{0} was read although {1} is not in the whitelist ({2})".format(name, no[0], op["white"]))
            ctx.probe("refused")
            ctx.nontrivial = True
        value = None
        if failed is None:
            try:
                value = G.norm(got)
            except Violation as err:
                if not altered or benign:
                    raise
                failed = err
            except Exception as err:
                failed = err
        if not anything:
            self.calls(t, list(functions(schema["schema"], True)), whites, default)
        if not anything and self.files(w) != files:
            raise self.v("written", "reading {0} changed the disk from {1} to {2}".format(name, files, self.files(w)))
        if no:
            return
        if trap is not None and trap in paths:
            if trap not in t.called and trap[-1] != "make" and not isinstance(failed, (TypeError, AttributeError, ValueError)):
                raise self.v("not-called", "{0} is allowed and was not called: {1}".format(trap, short(failed) if failed is not None else "no error"))
            if t.called:
                ctx.probe("allowed-called")
        if t.passed:
            ctx.probe("whitelist-passed")
            for p in t.passed:
                if p != whites:
                    raise self.v("whitelist-passed", "a function asked for the whitelist and was given another one")
        if op["white"] == "star":
            ctx.probe("star")
        if not altered or benign:
            if failed is not None:
                raise self.v("needless", "{0} cannot be read although all it calls is in the whitelist ({1}): {2}".format(name, op["white"], short(failed)))
            s = stored[name]
            if not G.same(value, s.v):
                raise self.v("value", "{0} was stored as {1}, reads as {2}".format(name, S.show(s.v), S.show(value)))
            if op["white"] == "plain":
                ctx.probe("unaltered-plain")
            if '"python"' in json.dumps(schema):
                ctx.probe("pickled-args")

    def calls(self, t, paths, whites, default):
        for path in t.called:
            # a static method may be reached through any name of the class
            if not allowed(path, whites, default) and not (path[-1] == "make" and any(p[-1:] == ["make"] and allowed(p, whites, default) for p in paths)):
                raise self.v("called", "{0} was called, and the whitelist does not allow it".format(path))
        for module in t.imported:
            # the package of an allowed module is imported, too; and an allowed function may turn out not to be there
            if not any(p and p[0].startswith(module) and any(len(p) >= len(x) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(p, x)) for x in whites) for p in paths):
                raise self.v("imported", "{0} was imported, and the whitelist does not allow any function of it".format(module))


CHECK = C16()

"""Simulated storage: a scratch disk under fault-injecting raw files, mappings,
HDF5 groups and file-like objects; restarts keep only what was stored.

Loaders of lazy arrays are module-level functions here, so that arrays using
them can be stored; what they read (SOURCE) is the outside world, which
survives a restart.
"""
import builtins
import errno
import io
import json
import os
import pickle
import shutil
import struct
import tempfile
import time
import zipfile

import numpy

import awkward0
import awkward0.persist
import awkward0.type
from dst import core
from dst import spec as S
from dst.core import PlanInvalid, SimCrash, SimFault, SimIOError, Violation
from dst.lazy import World


class SimNoSpace(SimIOError):
    def __init__(self, msg="no space"):
        super(SimNoSpace, self).__init__(errno.ENOSPC, msg)


core.FAULTS["nospace"] = SimNoSpace

# --------------------------------------------------------------------------- what stored lazy arrays are loaded from

SOURCE = None           # the world that loaders of the current run read from


PICKLED = (1, 2j)       # an argument that JSON has no words for


def load(number, flag=None):
    if flag not in (None, PICKLED):
        raise Violation("wrong-arguments", "a stored lazy array lost its arguments")
    return SOURCE.loadsource(number)


def load_kw(number=None, flag=None):
    if flag is not True:
        raise Violation("wrong-arguments", "a stored lazy array lost its keyword arguments")
    return SOURCE.loadsource(number)


class Point(object):
    """objects of an ObjectArray"""
    def __init__(self, array, *args, **kwargs):
        self.v = (int(array), args, tuple(sorted(kwargs.items())))

    def __eq__(self, other):
        return isinstance(other, Point) and self.v == other.v

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return "Point{0}".format(self.v)


WHITE = ["dst.store", "*"]


class StoreWorld(World):
    """a world whose lazy arrays can be stored"""
    def __init__(self, ctx, cfg):
        super(StoreWorld, self).__init__(ctx, cfg)
        self.sources = []           # what the loaders read; survives restarts

    def restart(self):
        """a new process: nothing in memory survives"""
        self.cache = type(self)(self.ctx, self.cfg).cache
        if hasattr(self.cache, "w"):
            self.cache.w = self

    def loadsource(self, number):
        self.calls.append(number)
        self.event("gen", number)
        self.depth += 1
        if self.depth > 50:
            raise Violation("runaway-loading", "loaders nest without bound")
        try:
            return S.build(self.sources[number]["c"], self)
        finally:
            self.depth -= 1

    def virtual(self, sp):
        number = None
        for i, s in enumerate(self.sources):
            if s is sp:
                number = i
        if number is None:
            number = len(self.sources)
            self.sources.append(sp)
        kw = {}
        opt = self.cfg.get("opts") or [0]
        o = opt[number % len(opt)]
        if o & 1:
            kw["type"] = awkward0.type.fromarray(S.build(S.strip(sp["c"])))
        if o & 2 and self.cache is not None:
            kw["persistentkey"] = "key-%d" % number
        if o & 64:
            kw["persistvirtual"] = False
        cache = None if (o & 8) else self.cache
        style = (o >> 4) & 3
        if style == 1:
            return awkward0.VirtualArray(load_kw, (), {"number": number, "flag": True}, cache=cache, **kw)
        return awkward0.VirtualArray(load, (number, PICKLED) if style == 2 else (number,), cache=cache, **kw)


# --------------------------------------------------------------------------- the disk

class SimRaw(io.FileIO):
    """a raw file: every system call is an event and a fault point"""
    disk = None

    def _ev(self, kind):
        if self.disk.dead:
            raise SimCrash("dead")
        self.disk.w.event(kind, self.disk.nameof(self.name))

    def write(self, b):
        d = self.disk
        if d.dead:
            return len(b)           # nothing this process still does has an effect
        b = bytes(b)
        n = len(b)
        torn = d.w.armed is not None and d.torn
        try:
            self._ev("fwrite")
        except SimFault as err:
            if torn and n > 1:
                super(SimRaw, self).write(b[:max(1, n * d.torn // 8)])
                d.w.ctx.fault("torn-write")
            if isinstance(err, SimCrash):
                d.dead = True
            raise
        if d.short and n > 1 and d.shortplan.next():
            n = max(1, n // 2)
            d.w.ctx.fault("short-write", False)
        if d.capacity is not None:
            pos = self.tell()
            size = os.fstat(self.fileno()).st_size
            room = d.capacity - d.used() + max(0, size - pos)
            if n > room:
                if room <= 0:
                    d.w.ctx.fault("fwrite:diskfull")
                    d.w.ctx.sched("FAULT", "disk full")
                    d.full += 1
                    raise SimNoSpace()
                n = room
        return super(SimRaw, self).write(b[:n])

    def readinto(self, buf):
        d = self.disk
        self._ev("fread")
        if d.short and len(buf) > 1 and d.shortplan.next():
            d.w.ctx.fault("short-read", False)
            return super(SimRaw, self).readinto(memoryview(buf)[:max(1, len(buf) // 2)])
        return super(SimRaw, self).readinto(buf)

    def read(self, n=-1):
        self._ev("fread")
        return super(SimRaw, self).read(n)

    def readall(self):
        self._ev("fread")
        return super(SimRaw, self).readall()

    def truncate(self, size=None):
        if self.disk.dead:
            return 0
        self._ev("ftruncate")
        return super(SimRaw, self).truncate(size)

    def seek(self, *args):
        return super(SimRaw, self).seek(*args)


class ShortPlan(object):
    def __init__(self, bits):
        self.bits, self.i = list(bits), 0

    def next(self):
        if not self.bits:
            return 0
        self.i += 1
        return self.bits[(self.i - 1) % len(self.bits)]


class Disk(object):
    """a scratch directory behind a seam: while active, every file opened below it is simulated"""
    base = None

    def __init__(self, w, cfg):
        self.w = w
        self.dir = tempfile.mkdtemp(prefix="dst", dir=Disk.base)
        self.dead = False
        self.torn = 0
        self.short = bool(cfg.get("short"))
        self.shortplan = ShortPlan(cfg.get("short") or ())
        self.bufsize = cfg.get("bufsize") or 8192
        self.capacity = None
        self.full = 0
        self.saved = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def nameof(self, path):
        return os.path.basename(str(path))

    def used(self):
        return sum(os.path.getsize(os.path.join(self.dir, f)) for f in os.listdir(self.dir))

    def mine(self, path):
        try:
            return os.fspath(path).startswith(self.dir + os.sep)
        except (TypeError, AttributeError):
            return False

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return self.saved["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.dead:
            raise SimCrash("dead")
        writing = any(c in mode for c in "wax+")
        self.w.event("fopenw" if writing else "fopen", self.nameof(file))
        disk = self
        cls = type("SimRaw", (SimRaw,), {"disk": disk})
        rawmode = mode.replace("b", "").replace("t", "")
        raw = cls(file, rawmode)
        if buffering == 0:
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def _guard(self, name, original):
        def call(*args, **kwargs):
            if self.dead and any(self.mine(a) for a in args):
                return None
            if any(self.mine(a) for a in args):
                self.w.event("f" + name, self.nameof(args[0]))
            return original(*args, **kwargs)
        return call

    def __enter__(self):
        self.saved = {"open": builtins.open, "ioopen": io.open, "time": zipfile.time}
        builtins.open = self.open
        io.open = self.open
        zipfile.time = SimTime()
        for name in ("remove", "unlink", "rename", "replace", "truncate"):
            self.saved[name] = getattr(os, name)
            setattr(os, name, self._guard(name, self.saved[name]))
        return self

    def __exit__(self, *args):
        builtins.open = self.saved["open"]
        io.open = self.saved["ioopen"]
        zipfile.time = self.saved["time"]
        for name in ("remove", "unlink", "rename", "replace", "truncate"):
            setattr(os, name, self.saved[name])
        shutil.rmtree(self.dir, ignore_errors=True)

    def reboot(self):
        self.dead = False


class SimTime(object):
    """the clock that archives take their time stamps from"""
    def __init__(self):
        self.now = 1600000000

    def time(self):
        self.now += 2
        return float(self.now)

    def localtime(self, t=None):
        return time.gmtime(self.now if t is None else t)

    def __getattr__(self, name):
        return getattr(time, name)


class SimFileObj(io.BytesIO):
    """a file-like object: each call is an event"""
    world = None
    dead = False
    shortread = None

    def write(self, b):
        if self.dead:
            return len(b)
        try:
            self.world.event("fwrite", "object")
        except SimFault as err:
            if self.world.torn:
                super(SimFileObj, self).write(bytes(b)[:max(1, len(b) * self.world.torn // 8)])
                self.world.ctx.fault("torn-write")
            if isinstance(err, SimCrash):
                self.dead = True
            raise
        return super(SimFileObj, self).write(b)

    def read(self, *args):
        if not self.dead:
            self.world.event("fread", "object")
        if self.shortread is not None and args and args[0] is not None and args[0] > 1 and self.shortread.next():
            self.world.ctx.fault("short-read-object")
            return super(SimFileObj, self).read(max(1, args[0] // 2))
        return super(SimFileObj, self).read(*args)

    def truncate(self, *args):
        if self.dead:
            return 0
        self.world.event("ftruncate", "object")
        return super(SimFileObj, self).truncate(*args)


class SimMap(object):
    """a store of named binary blobs (object store, key-value database): what it is given is copied"""
    def __init__(self, w):
        self.w = w
        self.data = {}
        self.dead = False

    def __getitem__(self, where):
        self.w.event("mget", where)
        if where not in self.data:
            raise KeyError(where)
        return self.data[where]

    def __setitem__(self, where, what):
        if self.dead:
            return
        blob = bytes(memoryview(numpy.ascontiguousarray(what)).cast("B")) if isinstance(what, numpy.ndarray) and what.size else (b"" if isinstance(what, numpy.ndarray) else bytes(what))
        try:
            self.w.event("mset", where)
        except SimFault as err:
            if self.w.after:
                self.data[where] = blob         # done, but reported as failed
            if isinstance(err, SimCrash):
                self.dead = True
            raise
        self.data[where] = blob

    def __delitem__(self, where):
        if self.dead:
            return
        self.w.event("mdel", where)
        del self.data[where]

    def __contains__(self, where):
        return where in self.data

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)

    def keys(self):
        return list(self.data)

    def get(self, where, default=None):
        try:
            return self[where]
        except KeyError:
            return default

    def pop(self, where, *default):
        if where in self.data:
            out = self.data[where]
            del self[where]
            return out
        if default:
            return default[0]
        raise KeyError(where)


# --------------------------------------------------------------------------- arrays to store

EXTRA = ("app", "obj", "spa", "raw")


def gen_extra(rng, ser, n):
    """kinds of arrays that only storage needs"""
    k = rng.pick(EXTRA)
    if k == "app":
        return {"k": "app", "v": [ser.next() for _ in range(n)], "size": rng.randrange(1, 5), "dt": rng.pick(["i8", "f8", "i2"])}
    if k == "obj":
        return {"k": "obj", "v": [ser.next() for _ in range(n)], "args": [rng.randrange(9) for _ in range(rng.randrange(3))], "kw": rng.randrange(3)}
    if k == "spa":
        have = [i for i in range(n) if rng.chance(0.5)]
        return {"k": "spa", "n": n, "index": have, "v": [ser.next() for _ in have], "default": rng.pick([0, 0, 7])}
    dt = rng.pick([">i4", "<u2", "c16", "S3", "<U2", "M8[s]", "?", "rec", "f4", ">f8"])
    return {"k": "raw", "dt": dt, "v": [ser.next() for _ in range(n)], "shape": rng.pick([0, 0, 0, 1, 2, -1]), "layout": rng.pick(["c", "c", "strided", "fortran", "neg"])}


def rawarray(sp):
    n, dt = len(sp["v"]), sp["dt"]
    w = sp["shape"]
    v = numpy.array(sp["v"] * max(w, 1), dtype="i8")
    if dt == "rec":
        a = numpy.zeros(len(v), dtype=[("a", "<i4"), ("b", ">f8", (2,))])
        a["a"] = v
        a["b"] = v[:, None] * 0.5
    elif dt in ("S3", "<U2"):
        a = numpy.array([str(x % 97) for x in v] or [], dtype=dt)
    elif dt == "M8[s]":
        a = v.astype("M8[s]")
    else:
        a = v.astype(dt)
    if w == -1:
        a = a.reshape(n, 1)[:, :0]
    elif w:
        a = a.reshape((n,) + (w,) if w == 1 else (n, w))
    if sp["layout"] == "strided":
        b = numpy.zeros((2 * n,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if sp["layout"] == "fortran":
        return numpy.asfortranarray(a)
    if sp["layout"] == "neg":
        return a[::-1].copy()[::-1]
    return a


def build_extra(sp):
    k = sp["k"]
    if k == "app":
        a = awkward0.AppendableArray((max(1, sp["size"]),), numpy.dtype(sp["dt"]))
        for x in sp["v"]:
            a.append(x)
        return a
    if k == "obj":
        return awkward0.ObjectArray(numpy.array(sp["v"], dtype="i8"), Point, tuple(sp["args"]), {"k": sp["kw"]} if sp["kw"] else {})
    if k == "spa":
        return awkward0.SparseArray(sp["n"], numpy.array(sp["index"], dtype="i8"), numpy.array(sp["v"], dtype="i8"), sp["default"])
    if k == "raw":
        return rawarray(sp)
    raise PlanInvalid("kind")


def value_extra(sp):
    k = sp["k"]
    if k == "app":
        return [x if sp["dt"] == "i8" else numpy.dtype(sp["dt"]).type(x).item() for x in sp["v"]]
    if k == "obj":
        return [Point(x, *sp["args"], **({"k": sp["kw"]} if sp["kw"] else {})) for x in sp["v"]]
    if k == "spa":
        d = dict(zip(sp["index"], sp["v"]))
        return [d.get(i, sp["default"]) for i in range(sp["n"])]
    if k == "raw":
        return plain(rawarray(sp))
    raise PlanInvalid("kind")


def plain(a):
    return S.norm(a.tolist() if a.dtype.names is None else [tuple(x) for x in a])

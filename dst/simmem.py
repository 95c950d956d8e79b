"""The allocator behind a seam: what memory holds before it is written to, and
when there is none.

numpy.empty hands out whatever the process left there; here the plan decides
what that is, so that a run is exactly repeatable and an answer that depends on
it shows.  A check may also ask for the k-th allocation of an operation to fail.
"""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile

import numpy

_empty, _empty_like = numpy.empty, numpy.empty_like


class Mem(object):
    def __init__(self):
        self.fill = 0

    def reset(self, fill):
        self.fill = fill


MEM = Mem()
FILLS = 4


def poison(array):
    fill = MEM.fill
    if fill is None or array.size == 0 or array.dtype.hasobject or not array.flags.c_contiguous:
        return array
    raw = array.reshape(-1).view(numpy.uint8)
    if fill == 0:
        raw[:] = 0
    elif array.dtype.kind == "b":
        raw[:] = 1 if fill != 3 else numpy.arange(len(raw)) % 3 == 1
    elif fill == 1:
        raw[:] = 0xff
    elif fill == 2:
        raw[:] = 0
        if array.dtype.kind in "iuf" and array.dtype.isnative:
            array[...] = 1
    else:
        raw[:] = (numpy.arange(len(raw)) * 167 + 13) % 251
    return array


def empty(*args, **kwargs):
    return poison(_empty(*args, **kwargs))


def empty_like(*args, **kwargs):
    return poison(_empty_like(*args, **kwargs))


def install():
    if numpy.empty is not empty:
        numpy.empty = empty
        numpy.empty_like = empty_like


class Fail(object):
    """the k-th array that awkward0 asks numpy for cannot be had"""
    def __init__(self):
        self.at = None
        self.times = 1
        self.count = 0
        self.failed = 0

    def start(self, at, times=1):
        self.at, self.times, self.count, self.failed = at, times, 0, 0

    def stop(self):
        self.at = None
        return self.count, self.failed

    def hit(self, name):
        self.count += 1
        if self.at <= 0:
            if self.times > 0:
                self.times -= 1
                self.failed += 1
                raise MemoryError("Unable to allocate (injected in numpy.{0})".format(name))
        self.at -= 1


FAIL = Fail()
NAMES = ["empty", "empty_like", "arange", "array", "zeros", "zeros_like", "ones", "ones_like", "full", "searchsorted", "concatenate", "unique", "cumsum", "where", "nonzero", "repeat",
         "unpackbits", "packbits", "append", "tile", "resize", "stack", "diff", "array_equal", "count_nonzero"]
ROOT = []


def failing(fcn, name):
    def out(*args, **kwargs):
        if FAIL.at is not None and sys._getframe(1).f_code.co_filename.startswith(ROOT[0]):
            FAIL.hit(name)
        return fcn(*args, **kwargs)
    out.__name__ = name
    out.__doc__ = fcn.__doc__
    return out


def install_failing():
    install()
    if not ROOT:
        import awkward0
        ROOT.append(os.path.dirname(os.path.abspath(awkward0.__file__)) + os.sep)
        for name in NAMES:
            setattr(numpy, name, failing(getattr(numpy, name), name))


class Native(object):
    """numpy's own data allocator (NEP 49), for every array numpy makes"""
    lib = None

    @classmethod
    def load(cls):
        if cls.lib is not None:
            return
        here = os.path.dirname(os.path.abspath(__file__))
        source = os.path.join(here, "simmem.c")
        with open(source, "rb") as f:
            digest = hashlib.sha1(f.read()).hexdigest()[:12]
        where = os.path.join(os.path.dirname(here), ".build")
        target = os.path.join(where, "simmem-%s.so" % digest)
        if not os.path.exists(target):
            os.makedirs(where, exist_ok=True)
            handle, tmp = tempfile.mkstemp(suffix=".so", dir=where)
            os.close(handle)
            subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, source])
            os.replace(tmp, target)
        lib = ctypes.PyDLL(target)
        lib.sim_handler.restype = ctypes.c_void_p
        lib.sim_set.argtypes = [ctypes.c_int]
        lib.sim_set.restype = None
        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        table = ctypes.cast(api.PyCapsule_GetPointer(numpy.core._multiarray_umath._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        cls.name = ctypes.create_string_buffer(b"mem_handler")
        cls.capsule = api.PyCapsule_New(lib.sim_handler(), ctypes.addressof(cls.name), None)
        cls.sethandler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])      # PyDataMem_SetHandler
        cls.lib = lib

    def __enter__(self):
        self.load()
        self.lib.sim_set(0)
        self.old = self.sethandler(self.capsule)
        if numpy.core.multiarray.get_handler_name() != "dst":
            raise RuntimeError("the allocator could not be replaced")
        return self

    def __exit__(self, *exc):
        self.lib.sim_set(0)
        self.sethandler(self.old)

    def fill(self, pattern):
        MEM.fill = None         # the allocator itself does it
        self.pattern = pattern
        self.lib.sim_set(pattern)

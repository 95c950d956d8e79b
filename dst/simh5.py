"""h5py groups whose every call is an event and a fault point."""
import h5py
import numpy

from dst.core import SimCrash, SimFault

WORLD = None


class State(object):
    dead = False
    after = 0


STATE = State()


def wrap(group, w):
    global WORLD
    WORLD = w
    STATE.dead = False
    return SimGroup(group.id)


def reboot():
    STATE.dead = False


def call(kind, name, fcn, dead=None):
    if STATE.dead:
        return dead
    try:
        WORLD.event(kind, name)
    except SimFault as err:
        if WORLD.after:
            fcn()               # it happened, but was reported as failed
        if isinstance(err, SimCrash):
            STATE.dead = True
        raise
    return fcn()


def back(x):
    if isinstance(x, h5py.Dataset):
        return SimDataset(x.id)
    if isinstance(x, h5py.Group):
        return SimGroup(x.id)
    return x


class SimDataset(h5py.Dataset):
    def __getitem__(self, args, *more, **kw):
        if not STATE.dead:
            WORLD.event("hread", self.name)
        return super(SimDataset, self).__getitem__(args, *more, **kw)


class SimGroup(h5py.Group):
    _depth = [0]

    def _go(self, kind, name, fcn, dead=None):
        if self._depth[0]:
            return fcn()        # one call of the library makes several of h5py's own: one event
        self._depth[0] += 1
        try:
            return call(kind, name, fcn, dead)
        finally:
            self._depth[0] -= 1

    def __getitem__(self, name):
        return back(self._go("hget", name, lambda: super(SimGroup, self).__getitem__(name)))

    def get(self, name, *args, **kw):
        return back(self._go("hget", name, lambda: super(SimGroup, self).get(name, *args, **kw)))

    def __setitem__(self, name, obj):
        return self._go("hset", name, lambda: super(SimGroup, self).__setitem__(name, obj))

    def __delitem__(self, name):
        return self._go("hdel", name, lambda: super(SimGroup, self).__delitem__(name))

    def create_group(self, name, *args, **kw):
        return back(self._go("hgroup", name, lambda: super(SimGroup, self).create_group(name, *args, **kw)))

    def require_group(self, name):
        return back(self._go("hgroup", name, lambda: super(SimGroup, self).require_group(name)))

    def create_dataset(self, name, *args, **kw):
        return back(self._go("hset", name, lambda: super(SimGroup, self).create_dataset(name, *args, **kw)))

    def move(self, source, dest):
        return self._go("hmove", source, lambda: super(SimGroup, self).move(source, dest))

    def __iter__(self):
        return iter(self._go("hlist", self.name, lambda: list(super(SimGroup, self).__iter__()), []))

    def __contains__(self, name):
        return self._go("hhas", name, lambda: super(SimGroup, self).__contains__(name), False)


def snapshot(group):
    """everything in a group, as plain data (not through the seam)"""
    out = {}

    def visit(name, obj):
        if isinstance(obj, h5py.Dataset):
            x = obj[()]
            out[name] = x.tobytes() if isinstance(x, numpy.ndarray) else repr(x)
        else:
            out[name] = None
    group.visititems(visit)
    return out

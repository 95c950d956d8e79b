"""Object identity behind a seam.

awkward0 keys caches and traversal tables by id(obj).  CPython may give a freed
object's id to the next object created; whether it does depends on the
allocator.  Here the simulator decides: ids are small integers handed out by
this table, and a freed id is reused at once (reuse="now"), after a delay or
never.  Every choice CPython could make is covered by one of these.
"""
import builtins
import weakref

_realid = builtins.id


class SimIds(object):
    def __init__(self, reuse="now"):
        self.reset(reuse)

    def reset(self, reuse="now"):
        self.reuse = reuse
        self.live = {}          # real id -> (weakref, simulated id)
        self.free = []
        self.next = 1
        self.reused = 0
        self.epoch = object()

    def __call__(self, obj):
        rid = _realid(obj)
        entry = self.live.get(rid)
        if entry is not None and entry[0]() is obj:
            return entry[1]
        epoch = self.epoch

        def gone(ref, rid=rid):
            if self.epoch is epoch:
                e = self.live.get(rid)
                if e is not None and e[0] is ref:
                    del self.live[rid]
                    if self.reuse != "never":
                        self.free.append(e[1])
        try:
            ref = weakref.ref(obj, gone)
        except TypeError:
            return -rid         # plain containers, strings, dtypes: their real identity
        lag = 0 if self.reuse == "now" else 3
        if len(self.free) > lag:
            n = self.free.pop() if self.reuse == "now" else self.free.pop(0)
            self.reused += 1
        else:
            n = self.next
            self.next += 1
        self.live[rid] = (ref, n)
        return n


IDS = SimIds()
_MODULES = ["awkward0.type", "awkward0.persist", "awkward0.arrow", "awkward0.generate", "awkward0.util"] + \
    ["awkward0.array." + m for m in ("base", "chunked", "indexed", "jagged", "masked", "objects", "table", "union", "virtual")]


def install():
    import importlib
    for m in _MODULES:
        importlib.import_module(m).__dict__["id"] = IDS

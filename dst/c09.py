"""C09: views, copies and results taken from a growing array stay as they were."""
import numpy

import awkward0

from dst import spec as S
from dst.c08 import C08
from dst.core import Violation


class C09(C08):
    prop = "C09"
    rule = "non-trivial: something taken from an array was read again after the array grew in place; distinct by event-sequence hash"
    required_probes = ["snapshot", "copied", "live-iterator", "boundary"]
    snapshots = True
    assumptions = C08.assumptions + ["an iterator is a reader of the growing array, not a snapshot: it may see later elements, in order"]

    def keep(self, ctx, name, res, got, snaps, handles, op):
        if isinstance(res, awkward0.AppendableArray) and len(handles) < 5 and (name in ("copy", "deepcopy", "shallow", "astype", "concat", "zeros") or op["i"] % 2):
            # it can grow on its own
            ctx.probe("copied")
            handles.append([res, list(got), res.dtype])
        elif isinstance(res, (numpy.ndarray, awkward0.AwkwardArray)) and len(snaps) < 8:
            ctx.probe("snapshot")
            ctx.nontrivial = True
            snaps.append((res, got, "the result of {0}".format(self.shown(op))))
        elif isinstance(res, list) and len(snaps) < 8:
            snaps.append((res, got, "the result of {0}".format(self.shown(op))))


CHECK = C09()

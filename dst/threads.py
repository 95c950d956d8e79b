"""Threads behind a seam: real threads, of which exactly one runs at a time.

Every line (or every instruction) of awkward0 that a simulated thread executes
is a point where the plan may hand the processor to another thread.  The plan
is a list of [number of points, next thread] pairs; when it is used up, each
thread runs to its end.
"""
import dis
import os
import sys
import threading

import awkward0
from dst.core import PlanInvalid

ROOT = os.path.dirname(os.path.abspath(awkward0.__file__)) + os.sep
TOOL = 4
mon = sys.monitoring
_active = None
_short = {}


def _line(code, where):
    short = _short.get(code.co_filename)
    if short is None:
        if not code.co_filename.startswith(ROOT):
            return mon.DISABLE
        short = _short[code.co_filename] = code.co_filename[len(ROOT):]
    sim = _active
    if sim is not None and threading.get_ident() == sim.ident and (sim.focus is None or code in sim.focus and (not sim.narrow or where in stores(code)[1])):
        sim.point("{0}:{1}".format(short, where))
    return None


def _instr(code, where):
    short = _short.get(code.co_filename)
    if short is None:
        if not code.co_filename.startswith(ROOT):
            return mon.DISABLE
        short = _short[code.co_filename] = code.co_filename[len(ROOT):]
    sim = _active
    if sim is not None and threading.get_ident() == sim.ident and (sim.focus is None or code in sim.focus and (not sim.narrow or where in stores(code)[0])):
        sim.point("{0}:{1}+{2}".format(short, code.co_name, where))
    return None


_writes = {}


_stores = {}


def stores(code):
    """(offsets, lines): right before and right after something that others may see is changed"""
    out = _stores.get(code)
    if out is None:
        instrs = list(dis.get_instructions(code))
        offsets, lines, line = set(), set(), None
        at = [x.positions.lineno for x in instrs]
        for i in changes(instrs):
            offsets.update(x.offset for x in instrs[i:i + 2])
            lines.update(n for n in at[i:i + 1] + [n for n in at[i:] if n is not None and n != at[i]][:1])
        out = _stores[code] = offsets, lines
    return out


def changes(instrs):
    out = []
    for i, x in enumerate(instrs):
        before = [(y.opname, y.argval) for y in instrs[max(0, i - 8):i]]
        if x.opname == "STORE_ATTR" and before and before[-1][0].startswith("LOAD_FAST") and before[-1][1] == "self":
            out.append(i)
        if x.opname in ("STORE_SUBSCR", "STORE_SLICE") and any(m[0].startswith("LOAD_FAST") and m[1] == "self" and n[0] == "LOAD_ATTR" for m, n in zip(before, before[1:])):
            out.append(i)
    return out


def writes(code):
    """does this function change what other threads may see? (setters and initialisers are for those who make arrays)"""
    out = _writes.get(code)
    if out is None:
        out = _writes[code] = (code.co_filename.startswith(ROOT) and code.co_name not in ("__init__", "_initClasses") and code.co_varnames[:2] != ("self", "value")
                               and bool(changes(list(dis.get_instructions(code)))))
    return out


class Called(object):
    """which functions of awkward0 that write are called"""
    def __enter__(self):
        self.seen = set()
        self.on = False
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.PY_START, self.start)
        mon.set_events(TOOL, mon.events.PY_START)
        return self

    def start(self, code, where):
        if self.on and code.co_filename.startswith(ROOT):
            self.seen.add(code)

    def __exit__(self, *args):
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
        self.writers = sorted((c for c in self.seen if writes(c)), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


class Sim(object):
    def __init__(self, ctx, plan, ops=False, focus=None):
        self.ctx = ctx
        self.focus = focus          # interrupt only in these functions (code objects)
        self.plan = []
        for pair in plan:
            if len(pair) != 2 or not all(isinstance(x, int) for x in pair):
                raise PlanInvalid("schedule")
            self.plan.append((max(1, pair[0]), abs(pair[1])))
        self.i = 0
        self.ops = ops              # between instructions, not only between lines
        self.threads = []
        self.current = None
        self.ident = None           # of the running thread, while it may be interrupted
        self.left = None
        self.switches = 0
        self.narrow = False         # and there only next to what changes something
        self.quiet = False          # not at events, either
        self.points = 0
        self.atomic = 0             # inside of something that is not to be interrupted
        self.done = threading.Semaphore(0)

    # -- the processor
    def _budget(self):
        self.left = self.plan[self.i][0] if self.i < len(self.plan) else None

    def point(self, where):
        """the running thread may be interrupted here"""
        if self.atomic:
            return
        self.points += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        nxt = self.plan[self.i][1]
        self.i += 1
        self._budget()
        alive = [t for t in self.threads if not t.finished and t is not self.current]
        if not alive:
            return
        me, other = self.current, alive[nxt % len(alive)]
        self.switches += 1
        self.ctx.sched("switch", me.number, other.number, where)
        self.current, self.ident = other, other.id
        other.go.release()
        me.go.acquire()

    def _end(self, me):
        me.finished = True
        self.ident = None
        alive = [t for t in self.threads if not t.finished]
        self.ctx.sched("end", me.number)
        if not alive:
            self.done.release()
            return
        nxt = self.plan[self.i][1] if self.i < len(self.plan) else 0
        self.current = alive[nxt % len(alive)]
        self.ident = self.current.id
        self.current.go.release()

    # -- threads
    def spawn(self, fcn):
        t = Thread(self, len(self.threads), fcn)
        self.threads.append(t)
        return t

    def run(self):
        global _active
        if not self.threads:
            return
        self._budget()
        for t in self.threads:
            t.start()
            t.ready.acquire()
        event = mon.events.INSTRUCTION if self.ops else mon.events.LINE
        mon.use_tool_id(TOOL, "dst")
        try:
            mon.register_callback(TOOL, mon.events.LINE, _line)
            mon.register_callback(TOOL, mon.events.INSTRUCTION, _instr)
            mon.set_events(TOOL, event)
            _active = self
            self.current = self.threads[0]
            self.ident = self.current.id
            self.current.go.release()
            self.done.acquire()
        finally:
            _active = None
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
        for t in self.threads:
            t.join()


class Thread(threading.Thread):
    def __init__(self, sim, number, fcn):
        super(Thread, self).__init__(daemon=True)
        self.sim, self.number, self.fcn = sim, number, fcn
        self.go = threading.Semaphore(0)
        self.ready = threading.Semaphore(0)
        self.finished = False
        self.error = None
        self.id = None

    def run(self):
        self.id = threading.get_ident()
        self.ready.release()
        self.go.acquire()
        try:
            self.fcn()
        except BaseException as err:
            self.error = err
        finally:
            self.sim._end(self)

"""The parts of the simulator that reach into a running library call.

Both seams are sys.monitoring events on pykalman's own code: the library is
unmodified.  `Injector` makes the n-th call (or line) executed by the library
fail; `Baton` runs several real threads one at a time and decides at every line
of library code who runs next.
"""

import dis
import os
import sys
import threading

import numpy as np

mon = sys.monitoring
TOOL = 3
LIB = f"{os.sep}pykalman{os.sep}"
TESTS = f"{os.sep}tests{os.sep}"

EXC = {
    "LinAlgError": np.linalg.LinAlgError,
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "FloatingPointError": FloatingPointError,
    "ValueError": ValueError,
    "IndexError": IndexError,
    "KeyError": KeyError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "StopIteration": StopIteration,
    "ZeroDivisionError": ZeroDivisionError,
    "OSError": OSError,
    "RuntimeError": RuntimeError,
}


CALL_EX = dis.opmap["CALL_FUNCTION_EX"]


def is_lib(code):
    f = code.co_filename
    return LIB in f and TESTS not in f


def heavy(callee):
    """Calls that compute something: numpy, scipy or the library itself."""
    mod = getattr(callee, "__module__", None) or type(callee).__module__ or ""
    if mod.split(".")[0] in ("numpy", "scipy", "pykalman"):
        return True
    owner = getattr(callee, "__self__", None)
    return isinstance(owner, np.ndarray)


class Injector:
    """Raise `exc` at the `at`-th event (1-based); at=None only counts."""

    def __init__(self, level, at=None, exc=None):
        self.level, self.at, self.exc = level, at, exc
        self.count = 0
        self.fired = False
        self.where = None
        self.error = None

    def _hit(self, code, what):
        self.count += 1
        if self.at is not None and self.count == self.at:
            self.fired = True
            self.where = f"{code.co_name}:{what}"
            self.error = EXC[self.exc](f"injected at event {self.at}")
            raise self.error

    def _call(self, code, offset, callee, arg0):
        if not is_lib(code):
            return mon.DISABLE
        if self.level == "heavy" and not heavy(callee):
            return None
        if code.co_code[offset] == CALL_EX:
            # f(*args): CPython 3.12 drops a reference too many when the monitoring
            # callback raises here, and the interpreter is corrupted afterwards
            return None
        self._hit(code, getattr(callee, "__name__", "?"))
        return None

    def _line(self, code, line):
        if not is_lib(code):
            return mon.DISABLE
        self._hit(code, "line")
        return None

    def __enter__(self):
        ev = mon.events.LINE if self.level == "line" else mon.events.CALL
        mon.use_tool_id(TOOL, "inject")
        mon.register_callback(TOOL, ev, self._line if self.level == "line" else self._call)
        mon.set_events(TOOL, ev)
        return self

    def __exit__(self, *exc):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.free_tool_id(TOOL)
        return False


def chain_has(e, target):
    """Does exception `e` carry `target` as itself, its cause or its context?"""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if x is target:
            return True
        todo += [x.__cause__, x.__context__]
    return False


class Stuck(Exception):
    """A client blocked outside the scheduler's control."""


class Baton:
    """Deterministic threads: exactly one runs; switches happen at library lines.

    `schedule` is a list of [gap, pick]: after `gap` further lines of library
    code the baton goes to the live client number `pick` (modulo).  When the
    schedule is used up, clients run to completion in order.
    """

    LIMIT = 10.0  # real seconds until a blocked client counts as stuck

    def __init__(self, programs, schedule):
        self.programs = programs
        self.schedule = [list(s) for s in schedule]
        self.alive = list(range(len(programs)))
        self.locks = [threading.Semaphore(0) for _ in programs]
        self.done = threading.Semaphore(0)
        self.errors = [None] * len(programs)
        self.current = None
        self.gap = None
        self.switches = 0
        self.lines = 0
        self.trace = []
        self.idents = {}
        self.failed = False

    def _next_gap(self):
        self.gap = max(1, self.schedule[0][0]) if self.schedule else None

    def _line(self, code, line):
        if not is_lib(code):
            return mon.DISABLE
        me = self.idents.get(threading.get_ident())
        if me is None or me != self.current:
            return None
        self.lines += 1
        if self.gap is None:
            return None
        self.gap -= 1
        if self.gap > 0:
            return None
        _, pick = self.schedule.pop(0)
        self._next_gap()
        other = self.alive[pick % len(self.alive)]
        if other != me:
            self.switches += 1
            self.trace.append((me, other, code.co_name))
            self._hand(me, other)
        return None

    def _hand(self, me, other):
        self.current = other
        self.locks[other].release()
        if not self.locks[me].acquire(timeout=self.LIMIT):
            self.failed = True
            raise Stuck(f"client {me} never got the baton back")

    def _main(self, i):
        self.idents[threading.get_ident()] = i
        if not self.locks[i].acquire(timeout=self.LIMIT):
            self.failed = True
            self.done.release()
            return
        try:
            self.programs[i]()
        except BaseException as e:  # noqa: BLE001 - handed to the main thread
            self.errors[i] = e
        finally:
            self.alive.remove(i)
            if self.alive:
                nxt = self.alive[0]
                self.current = nxt
                self.locks[nxt].release()
            self.done.release()

    def run(self):
        threads = [threading.Thread(target=self._main, args=(i,), daemon=True)
                   for i in range(len(self.programs))]
        self._next_gap()
        mon.use_tool_id(TOOL, "baton")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.set_events(TOOL, mon.events.LINE)
        try:
            for t in threads:
                t.start()
            self.current = 0
            self.locks[0].release()
            for _ in threads:
                if not self.done.acquire(timeout=self.LIMIT):
                    self.failed = True
                    break
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
        if self.failed:
            raise Stuck("a client blocked outside the scheduler's control")
        return self

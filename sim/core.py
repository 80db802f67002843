"""Core of the deterministic simulator.

A property module turns one integer into a *plan*: a JSON document that spells
out the model, the workload, every fault and every scheduling decision.  An
executor plays the plan against the real pykalman code.  Executing a plan draws
no random numbers and reads no clock, so a plan is one exactly repeatable
execution and doubles as the replay file.
"""

import collections
import gc
import hashlib
import json
import logging
import random
import signal
import sys
import warnings

import numpy as np


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, kind, msg, **data):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.data = data


class Injected(Exception):
    """Marker base for exceptions that the simulator raised on purpose."""


class IllPosed(Exception):
    """The reference itself is numerically undefined here: not a test of anything."""


class BudgetExceeded(BaseException):
    """A run used up its deterministic step budget (no progress)."""


def derive_seed(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive_seed(*parts))


# numpy error states that callers run under; in each some entry would show a leak
ERRSTATES = [
    {"divide": "ignore", "over": "ignore", "under": "ignore", "invalid": "ignore"},
    {"divide": "warn", "over": "ignore", "under": "ignore", "invalid": "warn"},
    {"divide": "ignore", "over": "warn", "under": "warn", "invalid": "ignore"},
]


SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)


def settings():
    """Process-wide settings a library call must leave alone."""
    return {
        "numpy error state": tuple(sorted(np.geterr().items())),
        "numpy print options": str(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": str(warnings.filters),
        "numpy error callback": repr(np.geterrcall()),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "interpreter limits": (sys.getrecursionlimit(), sys.getswitchinterval()),
        "interrupt handlers": tuple(repr(signal.getsignal(s)) for s in SIGNALS),
        "logging": logging.root.manager.disable,
        "standard streams": (id(sys.stdout), id(sys.stderr)),
    }


class Ctx:
    """What one execution leaves behind: its log and its counters."""

    def __init__(self):
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.log = []
        self.sig = []
        self.sim_time = 0.0
        self.ops = 0
        self.strict = False  # watch process-wide settings around every call

    def event(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.sig.append("!" + kind)

    def probe(self, name, n=1):
        self.counts[name] += n

    def digest(self):
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()

    def signature(self):
        return hashlib.sha256("|".join(self.sig).encode()).hexdigest()[:16]

    # -- calling the library ------------------------------------------------
    def call(self, name, fn, *args, **kwargs):
        """Legitimate call: an exception from the library is a violation."""
        self.ops += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(**ERRSTATES[self.ops % 3 if self.strict else 0]):
                    if not self.strict:
                        return fn(*args, **kwargs)
                    before = settings()
                    res = fn(*args, **kwargs)
                    changed = [k for k, v in settings().items() if v != before[k]]
                    if changed:
                        raise Violation("changed-world", f"{name} changed {changed}")
                    return res
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(
                "raised:" + name,
                f"{name} raised {type(e).__name__}: {e}",
            ) from e

    def record(self, name, arrays):
        """Put a rounded digest of results into the event log."""
        h = hashlib.sha256()
        for a in arrays:
            a = np.asarray(a, dtype=float)
            h.update(str(a.shape).encode())
            h.update(np.array2string(
                np.round(a, 6) + 0.0, threshold=10**6, precision=6).encode())
        self.event(name, h.hexdigest()[:16])


def plain(x, name):
    """A result as a plain float array, or a violation when it is not one."""
    try:
        if np.ma.isMaskedArray(x):
            if np.any(np.ma.getmaskarray(x)):
                raise Violation("shape:" + name, f"{name} contains masked values")
            x = x.data
        a = np.asarray(x)
        if a.dtype == object or not np.issubdtype(a.dtype, np.number):
            raise Violation("shape:" + name, f"{name} is not numeric: {a.dtype}")
        return np.array(a, dtype=float)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("shape:" + name, f"{name} is not an array: {e}") from e


def pair(res, shape1, shape2, name):
    """Check that `res` is a pair of arrays of the documented shapes."""
    try:
        a, b = res
    except Exception as e:  # noqa: BLE001
        raise Violation("shape:" + name, f"{name} did not return a pair") from e
    a, b = plain(a, name), plain(b, name)
    if a.shape != tuple(shape1) or b.shape != tuple(shape2):
        raise Violation(
            "shape:" + name,
            f"{name} returned shapes {a.shape}, {b.shape}, "
            f"documented {tuple(shape1)}, {tuple(shape2)}",
        )
    return a, b


def scalar(res, name):
    a = plain(res, name)
    if a.shape != ():
        raise Violation("shape:" + name, f"{name} returned shape {a.shape}, not a number")
    return float(a)


MARGIN = {}  # kind -> largest error seen, as a fraction of the tolerance


def close(kind, got, want, rtol, what, floor=1.0):
    """Compare against the oracle, relative to the scale of the wanted array."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(kind, f"{what}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return 0.0
    if not np.all(np.isfinite(got)):
        raise Violation(kind, f"{what}: not finite: {got.tolist()}, expected {want.tolist()}")
    scale = max(floor, float(np.max(np.abs(want))))
    err = float(np.max(np.abs(got - want))) / scale
    MARGIN[kind] = max(MARGIN.get(kind, 0.0), err / rtol if rtol else 0.0)
    if not err <= rtol:
        raise Violation(
            kind,
            f"{what}: relative error {err:.3g} > {rtol:g}; got {short(got)}, "
            f"expected {short(want)}",
        )
    return err


def short(a):
    s = np.array2string(np.asarray(a), precision=8, threshold=20, separator=",")
    return " ".join(s.split())[:300]


def dumps(plan):
    return json.dumps(plan, sort_keys=True)


def clone(plan):
    return json.loads(dumps(plan))


# -- generic minimisation ----------------------------------------------------
def drop_candidates(lst):
    """Sub-lists of `lst`, big cuts first."""
    n = len(lst)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            yield lst[:start] + lst[start + size:]
        size //= 2


def minimise(plan, kind, run, shrinkers, budget=400):
    """Greedy minimisation: keep any candidate that fails in the same class."""
    tried = 0
    progress = True
    while progress and tried < budget:
        progress = False
        for shrink in shrinkers:
            again = True
            while again and tried < budget:
                again = False
                for cand in shrink(clone(plan)):
                    if cand is None or dumps(cand) == dumps(plan):
                        continue
                    tried += 1
                    try:
                        k = run(cand)
                    except Exception:  # noqa: BLE001 - an unusable candidate
                        k = None
                    if k == kind:
                        plan = cand
                        again = progress = True
                        break
                    if tried >= budget:
                        break
    return plan, tried


def list_shrinker(*path):
    """Shrinker that removes elements from the list at plan[path...]."""

    def shrink(plan):
        node = plan
        for p in path[:-1]:
            node = node.get(p) if isinstance(node, dict) else None
            if node is None:
                return
        lst = node.get(path[-1])
        if not isinstance(lst, list):
            return
        for cut in drop_candidates(lst):
            c = clone(plan)
            n = c
            for p in path[:-1]:
                n = n[p]
            n[path[-1]] = cut
            yield c

    return shrink


def set_shrinker(values):
    """Shrinker that tries simpler values: [(path, value), ...]."""

    def shrink(plan):
        for path, value in values:
            c = clone(plan)
            n = c
            ok = True
            for p in path[:-1]:
                if not isinstance(n, dict) or p not in n:
                    ok = False
                    break
                n = n[p]
            if not ok or path[-1] not in n or n[path[-1]] == value:
                continue
            n[path[-1]] = value
            yield c

    return shrink

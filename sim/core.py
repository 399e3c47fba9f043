"""Simulation core: seeds, violations, event logs, the per-run context."""
import hashlib
import random
import struct
from collections import Counter

import numpy as np


def derive(*labels) -> int:
    h = hashlib.sha256("\x1f".join(str(x) for x in labels).encode()).digest()
    return struct.unpack(">Q", h[:8])[0]


class Rng(random.Random):
    """A seeded stream; ``fork`` gives an independent stream that never perturbs the parent."""

    def __new__(cls, *labels):
        return super().__new__(cls)

    def __init__(self, *labels):
        self.labels = tuple(str(x) for x in labels)
        super().__init__(derive(*labels))

    def fork(self, *labels):
        return Rng(*(self.labels + tuple(labels)))

    def vec(self, lo=-1.0, hi=1.0, digits=6):
        return [round(self.uniform(lo, hi), digits) for _ in range(3)]

    def unit(self):
        while True:
            v = [self.gauss(0, 1) for _ in range(3)]
            n = sum(x * x for x in v) ** 0.5
            if n > 1e-3:
                return [x / n for x in v]

    def quat(self):
        while True:
            v = [self.gauss(0, 1) for _ in range(4)]
            n = sum(x * x for x in v) ** 0.5
            if n > 1e-3:
                return [x / n for x in v]

    def chance(self, p):
        return self.random() < p


class Violation(Exception):
    """A property was broken.  ``kind`` is the coarse class kept while minimising, ``key`` identifies the specific
    failing call site/history for the known-findings file."""

    def __init__(self, kind, detail="", key=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = str(detail)
        self.key = key or kind


class InjectedFault(Exception):
    """The exception raised by the fault injector inside the system under simulation."""


class InvalidCase(Exception):
    """The (minimised) case is outside of the property's domain; it counts as a pass."""


def _feed(h, obj):
    if obj is None:
        h.update(b"N")
    elif isinstance(obj, (bool, np.bool_)):
        h.update(b"b1" if obj else b"b0")
    elif isinstance(obj, (int, np.integer)):
        h.update(b"i" + str(int(obj)).encode())
    elif isinstance(obj, (float, np.floating)):
        h.update(b"f" + struct.pack(">d", float(obj)))
    elif isinstance(obj, str):
        h.update(b"s" + obj.encode("utf-8", "surrogatepass"))
    elif isinstance(obj, bytes):
        h.update(b"y" + obj)
    elif isinstance(obj, np.ndarray):
        h.update(b"a" + str(obj.shape).encode() + str(obj.dtype).encode() + np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (list, tuple)):
        h.update(b"[")
        for o in obj:
            _feed(h, o)
        h.update(b"]")
    elif isinstance(obj, dict):
        h.update(b"{")
        for k in obj:
            _feed(h, k)
            _feed(h, obj[k])
        h.update(b"}")
    elif isinstance(obj, (set, frozenset)):
        h.update(b"S")
        for o in sorted(digest(x) for x in obj):
            h.update(o.encode())
    else:
        h.update(b"r" + repr(obj).encode())


def digest(*objs) -> str:
    h = hashlib.sha256()
    for o in objs:
        _feed(h, o)
    return h.hexdigest()[:16]


class Ctx:
    """What one simulated run records: an event log (hashed as it grows), injected faults, simulated time, coverage."""

    def __init__(self, keep_events=False):
        self._h = hashlib.sha256()
        self.n_events = 0
        self.events = [] if keep_events else None
        self.faults = Counter()
        self.stats = Counter()
        self.sim_time = 0.0
        self.sigs = set()

    def event(self, name, *data):
        self.n_events += 1
        _feed(self._h, name)
        for d in data:
            _feed(self._h, d)
        if self.events is not None:
            self.events.append((name,) + tuple(_short(d) for d in data))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def count(self, name, n=1):
        self.stats[name] += n

    def sig(self, *objs):
        """Record a distinct state/interleaving signature."""
        self.sigs.add(digest(*objs))

    def digest(self):
        return self._h.hexdigest()[:24]


def _short(d):
    if isinstance(d, np.ndarray):
        if d.size <= 12:
            return d.tolist()
        return "array%s#%s" % (d.shape, digest(d))
    if isinstance(d, (np.integer, np.floating, np.bool_)):
        return d.item()
    if isinstance(d, (str, int, float, bool, type(None))):
        return d
    if isinstance(d, (list, tuple)) and len(d) <= 12:
        return [_short(x) for x in d]
    return "#" + digest(d)


def check(cond, kind, detail="", key=None):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail, key)


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))

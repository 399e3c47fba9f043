"""Fault injection and the seams that put a source of nondeterminism under the simulator."""
import contextlib
import resource
import signal
import sys

import numpy as np

from . import boot
from .core import InjectedFault, Rng, derive

_REPO_PREFIX = boot.REPO.rstrip("/") + "/rainbow/"
_TOOL = 3  # sys.monitoring tool id

# Calls that only move data about.  A fault in them models nothing a deployment meets (they are the instructions a
# commit of already computed values is made of), so they are never fault points.
_TRIVIAL = {
    "copy", "copyto", "array", "asarray", "asanyarray", "ascontiguousarray", "len", "range", "enumerate", "zip",
    "isinstance", "type", "print", "str", "repr", "format", "append", "items", "values", "keys", "get", "set",
    "list", "dict", "tuple", "float", "int", "bool", "iter", "next", "getattr", "setattr", "hasattr", "id", "pop",
    "update", "super", "join", "replace", "startswith", "sorted", "reversed", "map", "property", "extend", "clear",
    "__init__", "__enter__", "__exit__", "hash", "deepcopy", "insert", "remove", "index", "callable", "ravel",
    "reshape", "flatten", "view", "tolist", "astype", "combinations", "perf_counter", "start", "end",
    "lower", "upper", "strip", "casefold", "capitalize", "title", "encode", "decode",
    "split", "array_split", "hsplit", "vsplit", "concatenate", "stack", "unpack", "locals", "partial", "min", "max",
}


def _cname(c):
    return getattr(c, "__name__", None) or type(c).__name__


class CallInjector:
    """Counts eligible calls made *from* code of the system under simulation; raises at the ``at``-th one (1 based).

    An eligible call is one that computes or allocates outside of the system's own Python code: a numpy, scipy, igl or
    built-in routine other than the data movers listed above (a plain Python call of the system cannot itself fail)."""

    def __init__(self, at=None, exc=None, only=None):
        self.at = at
        self.n = 0
        self.fired = None
        self.exc = exc or InjectedFault("injected failure")
        self.only = only
        self.sites = {}      # (code, offset) -> list of call numbers
        self._own = {}

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(_TOOL, "verif-sim")
        mon.register_callback(_TOOL, mon.events.CALL, self._on_call)
        mon.set_events(_TOOL, mon.events.CALL)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(_TOOL, 0)
        mon.register_callback(_TOOL, mon.events.CALL, None)
        mon.free_tool_id(_TOOL)
        return False

    def _is_own(self, func):
        code = getattr(getattr(func, "__func__", func), "__code__", None)
        return code is not None and code.co_filename.startswith(_REPO_PREFIX)

    def _on_call(self, code, offset, func, arg0):
        if not code.co_filename.startswith(_REPO_PREFIX):
            return sys.monitoring.DISABLE
        name = _cname(func)
        if name in _TRIVIAL or isinstance(func, type) or self._is_own(func):
            return None
        if self.only is not None and not self.only(code, func, name):
            return None
        self.n += 1
        if self.at is None:
            self.sites.setdefault((code.co_filename, code.co_firstlineno, offset), []).append(self.n)
        elif self.n == self.at and self.fired is None:
            self.fired = "%s@%s:%s" % (name, code.co_filename[len(boot.REPO) + 1:], code.co_name)
            raise self.exc
        return None

    def pick(self, mode, u, v):
        """Choose a fault point from a recording: by raw position, or by call site (so that rare sites count)."""
        if self.n == 0:
            return None
        if mode == "count":
            return 1 + int(u * self.n) % self.n
        if mode == "tail":
            return max(1, self.n - int(u * min(60, self.n)))
        sites = [self.sites[k] for k in sorted(self.sites)]
        s = sites[int(u * len(sites)) % len(sites)]
        if mode == "site-last":
            return s[-1]
        if mode == "site-first":
            return s[0]
        return s[int(v * len(s)) % len(s)]


def gen_point(rng):
    return {"mode": rng.choice(["count", "site", "site", "site-last", "site-first", "tail"]),
            "u": round(rng.random(), 6), "v": round(rng.random(), 6),
            "exc": rng.choice(["fault", "fault", "memory", "interrupt", "float"])}


def make_exc(kind):
    return {"fault": InjectedFault("injected failure"), "memory": MemoryError("injected"),
            "interrupt": KeyboardInterrupt("injected"), "float": FloatingPointError("injected"),
            "os": OSError(28, "No space left on device")}[kind]


class Budget:
    """Deterministic progress bound: raises after ``limit`` branches/jumps executed inside the system."""

    def __init__(self, limit, exc):
        self.limit, self.exc, self.n = limit, exc, 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(2, "verif-budget")
        mon.register_callback(2, mon.events.JUMP, self._on)
        mon.set_events(2, mon.events.JUMP)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(2, 0)
        mon.register_callback(2, mon.events.JUMP, None)
        mon.free_tool_id(2)
        return False

    def _on(self, code, off, dest):
        if not code.co_filename.startswith(_REPO_PREFIX):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise self.exc


# ---------------------------------------------------------------------------------------------------------- clocks
class SimClock:
    """A clock the simulator owns: advances by seeded amounts per reading; may stall, jump ahead, step back."""

    def __init__(self, rng, mode="normal", t0=1.7e9):
        self.rng, self.mode, self.t, self.mono, self.reads = rng, mode, t0, 100.0, 0

    def _tick(self):
        self.reads += 1
        if self.mode == "frozen":
            return 0.0
        if self.mode == "coarse":
            return 0.015625 if self.reads % 7 == 0 else 0.0
        if self.mode == "jumpy":
            return self.rng.choice([1e-7, 1e-3, 0.0, 5.0, 3600.0])
        return self.rng.uniform(1e-7, 1e-3)

    def monotonic(self):
        self.mono += self._tick()
        return self.mono

    def wall(self):
        d = self._tick()
        if self.mode == "jumpy" and self.rng.chance(0.3):
            d = -d  # wall clocks step backwards
        self.t += d
        return self.t


@contextlib.contextmanager
def clock_seam(clock):
    """Replace the readings of every clock of the process by the simulated clock's."""
    import datetime as dtmod
    import time

    saved = {k: getattr(time, k) for k in ("time", "perf_counter", "monotonic", "perf_counter_ns", "time_ns",
                                           "monotonic_ns", "process_time")}
    real_dt = dtmod.datetime

    class SimDatetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            return real_dt.fromtimestamp(clock.wall(), tz or dtmod.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    time.time = clock.wall
    time.time_ns = lambda: int(clock.wall() * 1e9)
    time.perf_counter = time.monotonic = time.process_time = clock.monotonic
    time.perf_counter_ns = time.monotonic_ns = lambda: int(clock.monotonic() * 1e9)
    dtmod.datetime = SimDatetime
    try:
        yield clock
    finally:
        for k, v in saved.items():
            setattr(time, k, v)
        dtmod.datetime = real_dt


# ------------------------------------------------------------------------------------------------------ randomness
class LazyRandInts:
    """A random integer table whose entries are drawn (as a pure function of seed and index) when first read."""

    def __init__(self, low, high, shape, seed):
        self.low, self.high, self.shape, self.seed = int(low), int(high), tuple(shape), seed
        self.ndim = len(self.shape)
        self.dtype = np.dtype(int)

    def _at(self, idx):
        flat = 0
        for i, n in zip(idx, self.shape):
            i = int(i)
            if i < -n or i >= n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (i, n))
            flat = flat * n + (i % n)
        return self.low + derive("phi", self.seed, flat) % (self.high - self.low)

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) == 1 and isinstance(idx[0], (list, np.ndarray)):
            idx = tuple(idx[0])
        if len(idx) != self.ndim:
            raise IndexError("lazy table needs %d indices" % self.ndim)
        if any(isinstance(i, np.ndarray) and i.ndim for i in idx):
            arrs = np.broadcast_arrays(*[np.asarray(i) for i in idx])
            out = np.empty(arrs[0].shape, dtype=int)
            for pos in np.ndindex(out.shape):
                out[pos] = self._at([a[pos] for a in arrs])
            return out
        return np.int64(self._at(idx))

    def __len__(self):
        return self.shape[0]


_phi_seed = [0]


def install_phi_seam():
    """Route *large* random integer tables (the hash offset table is 1000^3 entries) through a lazy seeded table.
    Small draws keep using numpy's generator.  Idempotent."""
    if getattr(np.random.randint, "_verif", False):
        return
    real = np.random.randint

    def randint(low, high=None, size=None, dtype=int):
        n = 1
        if size is not None:
            shp = (size,) if np.isscalar(size) else tuple(size)
            for s in shp:
                n *= int(s)
            if n >= 10 ** 7:
                lo, hi = (0, low) if high is None else (low, high)
                _phi_seed[0] += 1
                return LazyRandInts(lo, hi, shp, _phi_seed[0])
        return real(low, high, size, dtype)

    randint._verif = True
    np.random.randint = randint


def seed_phi(seed):
    _phi_seed[0] = derive("phi-seed", seed) % (1 << 40)


def seed_all(seed):
    import random
    np.random.seed(derive("np", seed) % (1 << 32))
    random.seed(derive("py", seed))
    seed_phi(seed)


# ------------------------------------------------------------------------------------------------------------ disk
@contextlib.contextmanager
def disk_limit(nbytes):
    """No file may grow beyond ``nbytes``: the kernel fails the write (short write, then EFBIG), as a full disk does."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (int(nbytes), hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)


class Faulter:
    """Injects a failing call into a step of any engine; the position is a fraction of the calls the previous successful
    step made."""

    def __init__(self):
        self.est = 200

    def run(self, call, point):
        """Returns the site of the failure, or None when the call finished before reaching it."""
        at = max(1, int(point["u"] * self.est * 1.05))
        inj = CallInjector(at=at, exc=make_exc(point["exc"]))
        try:
            with inj:
                call()
        except BaseException as e:  # noqa
            if inj.fired is None or not isinstance(e, (Exception, KeyboardInterrupt)):
                raise
        if inj.fired is None:
            self.est = max(inj.n, 10)
        return inj.fired

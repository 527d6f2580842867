"""Seams for randomness, clocks, locks and interruption; installed before the code under test is imported."""
import _thread
import datetime as _dt
import importlib.machinery
import os
import random
import sys
import threading
import warnings
import weakref

from sim.core import REPO_SRC, HarnessError, OrigRandom, Violation

_orig_urandom = os.urandom
_orig_global_seed = random.seed
_entropy = OrigRandom(0)
_installed = False


def sim_urandom(n):
    return _entropy.getrandbits(8 * n).to_bytes(n, "big") if n else b""


class SimRandom(OrigRandom):
    """`random.Random` whose unseeded instances draw from the simulated entropy."""

    def seed(self, a=None, version=2):
        if a is None:
            a = _entropy.getrandbits(128)
        super().seed(a, version)


def _sim_global_seed(a=None, version=2):
    if a is None:
        a = _entropy.getrandbits(128)
    _orig_global_seed(a, version)


class _Clock:
    now = 1_700_000_000.0
    running = 1000.0  # of the clocks that never go back
    jumps = ()
    reads = 0


def _jump(default):
    _Clock.reads += 1
    return _Clock.jumps[_Clock.reads % len(_Clock.jumps)] if _Clock.jumps else default


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        _Clock.now += _jump(0.25)
        return _dt.datetime.fromtimestamp(_Clock.now, tz or _dt.timezone.utc).replace(tzinfo=tz)


def set_clock(now, jumps):
    _Clock.now, _Clock.jumps, _Clock.reads = now, tuple(jumps), 0


class CoopLock:
    """A lock that hands the baton over instead of blocking the simulation."""

    scheduler = None

    def __init__(self, factory):
        self._lock = factory()

    def acquire(self, blocking=True, timeout=-1):
        sched = CoopLock.scheduler
        if sched is None or not sched.is_sim_thread():
            if self._lock.acquire(False):
                return True
            # Nobody else is running (threads that are only just starting or ending are counted): asked again, the answer is final.
            if blocking and timeout < 0 and _thread._count() == 0:
                if self._lock.acquire(False):
                    return True
                raise Violation("deadlock", "a lock that nobody will ever release is waited for")
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if not blocking:
                return False
            sched.blocked()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


class Addresses:
    """id() for the repository's modules: simulated addresses, the one freed last given first to the next new object of that type.
    Real addresses depend on the allocator, so a mistake that needs a reused address would not replay."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.next, self.free, self.live, self.kept = 1 << 20, {}, {}, []

    def __call__(self, obj, /):
        real = _real_id(obj)
        known = self.live.get(real)
        if known is not None and known[0]() is obj:
            return known[1]
        kind = type(obj)
        pool = self.free.setdefault(kind, [])
        address = pool.pop() if pool else self.next
        if address == self.next:
            self.next += 64
        try:
            ref = weakref.ref(obj, lambda _, self=self, real=real, address=address, pool=pool: self._gone(real, address, pool))
        except TypeError:  # no weak references to this type: it is kept, and its address never reused
            self.kept.append(obj)
            ref = lambda: obj  # noqa: E731
        self.live[real] = (ref, address)
        return address

    def _gone(self, real, address, pool):
        known = self.live.get(real)
        if known is not None and known[1] == address:
            del self.live[real]
        pool.append(address)


_real_id = id
addresses = Addresses()


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the repository's current source: no stale byte code."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["id"] = addresses
        super().exec_module(module)


def _repo_hook(path):
    if not os.path.realpath(path).startswith(REPO_SRC):
        raise ImportError
    return importlib.machinery.FileFinder(path, (_FreshLoader, [".py"]))


def install():
    """Patch the sources of nondeterminism. Must run before the code under test is imported."""
    global _installed
    if _installed:
        return
    if any(m.startswith("cognitivefactory") for m in sys.modules):
        raise HarnessError("the code under test was imported before the seams")
    _installed = True
    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda *_: None
    sys.dont_write_bytecode = True
    sys.path_hooks.insert(0, _repo_hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, REPO_SRC)
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    random.Random = SimRandom
    random.seed = _sim_global_seed


_np_done = False


def install_numpy():
    global _np_done
    if _np_done:
        return
    _np_done = True
    import numpy as np

    orig_rs, orig_seed, orig_rng = np.random.RandomState, np.random.seed, np.random.default_rng

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, orig_rs)

        def __call__(cls, seed=None):
            return orig_rs(_entropy.getrandbits(32) if seed is None else seed)

    class RandomState(orig_rs, metaclass=_Meta):
        pass

    def np_seed(seed=None):
        orig_seed(_entropy.getrandbits(32) if seed is None else seed)

    def default_rng(seed=None):
        return orig_rng(_entropy.getrandbits(128) if seed is None else seed)

    np.random.RandomState = RandomState
    np.random.seed = np_seed
    np.random.default_rng = default_rng


def install_locks():
    if getattr(threading, "_sim_locks", False):
        return
    threading._sim_locks = True
    lock, rlock = threading.Lock, threading.RLock
    threading.Lock = lambda: CoopLock(lock)
    threading.RLock = lambda: CoopLock(rlock)


def patch_datetime():
    for name, module in list(sys.modules.items()):
        if name.startswith("cognitivefactory") and module is not None:
            if getattr(module, "datetime", None) is _dt.datetime:
                module.datetime = SimDatetime


def install_clock():
    """Only in the forked process of a run: wall clocks become simulated ones, set by `ambient`."""
    import time

    def now():
        _Clock.now += _jump(0.001)
        return _Clock.now

    def running():
        _Clock.running += abs(_jump(0.001))
        return _Clock.running

    new = {"time": now, "time_ns": lambda: int(now() * 1e9)}
    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        new[name], new[name + "_ns"] = running, lambda: int(running() * 1e9)
    old = {getattr(time, name): f for name, f in new.items()}
    for name, f in new.items():
        setattr(time, name, f)
    for name, module in list(sys.modules.items()):
        if name.startswith("cognitivefactory") and module is not None:
            for key, value in list(vars(module).items()):
                if callable(value) and type(value) is type(len) and value in old:
                    setattr(module, key, old[value])


def ambient(seed):
    """Set every process-wide generator, the simulated entropy and the clock, as the plan says."""
    _entropy.seed(seed)
    _Clock.now = 1_600_000_000.0 + seed % 100_000_000
    _Clock.running = 1000.0 + seed % 1000
    _orig_global_seed(seed)
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed(seed % (2**32))


def new_entropy(seed):
    """What a forked process gets: fresh entropy, from which Python seeds the generator of `random` again; the rest of the state stays."""
    _entropy.seed(seed)
    _orig_global_seed(_entropy.getrandbits(128))


def rng_state():
    """Observable state of the process-wide generators."""
    np = sys.modules.get("numpy")
    state = [repr(random.getstate())]
    if np is not None:
        s = np.random.get_state()
        state.append((s[0], s[1].tobytes(), s[2:]))
    return state


# --- tracing of the repository's lines -----------------------------------------------------------


def _wanted(filename, extra=()):
    return filename.startswith(REPO_SRC) or filename in extra


class Profile:
    """Records the sequence of repository lines executed (the points where an abort or switch can land)."""

    def __init__(self, cap=400000, extra=()):
        self.lines, self.cap, self.extra = [], cap, extra

    def _global(self, frame, event, arg):
        return self._local if _wanted(frame.f_code.co_filename, self.extra) else None

    def _local(self, frame, event, arg):
        if event == "line" and len(self.lines) < self.cap:
            self.lines.append((frame.f_code.co_filename, frame.f_lineno))
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def pick(self, u1, u2):
        return pick_line(self.lines, u1, u2)


def pick_line(lines, u1, u2):
    """Choose a distinct source line by u1, then one of its executions by u2; returns its event index."""
    if not lines:
        return None
    distinct = sorted(set(lines))
    line = distinct[min(int(u1 * len(distinct)), len(distinct) - 1)]
    where = [i for i, x in enumerate(lines) if x == line]
    return where[min(int(u2 * len(where)), len(where) - 1)]


class Abort:
    """Raises `exc` when the k-th repository line is about to execute."""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.fired, self.where = k, exc, 0, False, None

    def _global(self, frame, event, arg):
        return self._local if _wanted(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == "line" and not self.fired:
            if self.n == self.k:
                self.fired = True
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc("injected abort")
            self.n += 1
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


class Locale:
    """Text files opened without an explicit encoding get this one, as in a process started under another locale."""

    def __init__(self, encoding):
        self.encoding, self.used = encoding, False

    def __enter__(self):
        import builtins
        import io
        import locale

        self.saved = [(builtins, "open", builtins.open), (io, "open", io.open), (locale, "getpreferredencoding", locale.getpreferredencoding), (locale, "getencoding", locale.getencoding)]
        real = io.open

        def opener(file, mode="r", buffering=-1, encoding=None, *args, **kw):
            if "b" not in mode and encoding in (None, "locale"):
                encoding, self.used = self.encoding, True
            return real(file, mode, buffering, encoding, *args, **kw)

        builtins.open = io.open = opener
        locale.getpreferredencoding = lambda *a: self.encoding
        locale.getencoding = lambda: self.encoding
        return self

    def __exit__(self, *exc):
        for where, name, value in self.saved:
            setattr(where, name, value)

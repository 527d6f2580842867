"""Core of the simulator: private randomness, verdict classes, and the per-run context."""
import collections
import hashlib
import json
import os
import random as _random

OrigRandom = _random.Random  # captured before any seam replaces it
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
REPO_SRC = os.path.join(REPO, "src")


class Violation(Exception):
    """The code under test broke the property. `kind` is the violation class kept while minimising."""

    def __init__(self, kind, detail):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    """The simulator itself is wrong: never reported as a violation."""


class SimCrash(BaseException):
    """The simulated process dies here; nothing after it has any effect."""


class InjectedFault(Exception):
    """An error raised by a faulty input of the code under test (manager backend, vector store)."""


def seed_int(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Rng(OrigRandom):
    """The only source of choices of a run; derived from VERIF_SEED, the property and the run number."""

    def __init__(self, *parts):
        super().__init__(seed_int(*parts))

    def chance(self, p):
        return self.random() < p

    def weighted(self, table):
        items = list(table)
        x = self.random() * sum(w for _, w in items)
        for value, w in items:
            x -= w
            if x < 0:
                return value
        return items[-1][0]

    def u(self):
        """A fraction with few digits, so that plans stay readable."""
        return self.randrange(10000) / 10000


def short_hash(obj):
    if not isinstance(obj, bytes):
        obj = json.dumps(obj, sort_keys=True, default=repr).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=7).digest(), "big")


class Ctx:
    """What one simulated run records: event digest, faults that fired, probes, states reached."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.steps = 0
        self.sim_time = 0.0
        self.nontrivial = False
        self._log = hashlib.blake2b(digest_size=8)
        self.log_tail = collections.deque(maxlen=400)
        self._paths = 0

    def event(self, *what):
        line = json.dumps(what, default=repr)
        self._log.update(line.encode() + b"\n")
        self.log_tail.append(line)
        self.steps += 1

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, obj):
        if len(self.states) < 400:
            self.states.add(short_hash(obj))

    def digest(self):
        return self._log.hexdigest()

    def path(self, name=None):
        self._paths += 1
        return os.path.join(self.scratch, name or "f%03d.json" % self._paths)


def attempt(fn, *args, **kwargs):
    """Call the code under test: ("ok", value) or ("err", exception). BaseExceptions go through."""
    try:
        return ("ok", fn(*args, **kwargs))
    except (Violation, HarnessError):
        raise
    except Exception as err:
        return ("err", err)


def must(what, fn, *args, **kwargs):
    """Call the code under test where the property leaves no room for an error."""
    tag, value = attempt(fn, *args, **kwargs)
    if tag == "err":
        raise Violation("unexpected-error", "%s raised %s: %s" % (what, type(value).__name__, value))
    return value


def ensure(cond, kind, detail):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)

"""Deterministic scheduling of real threads: one baton, switches only at planned repository lines."""
import _thread
import random
import sys
import threading

from sim import seams
from sim.core import Violation


class Scheduler:
    """Runs functions in real threads of which exactly one holds the baton.

    `switches` maps (thread, k) to the thread that gets the baton when thread is about to execute its
    k-th traced line; `aborts` maps (thread, k) to an exception raised there. A finished or blocked thread hands over to the next live one, in order."""

    def __init__(self, functions, switches, extra=(random.__file__,), aborts=None):
        self.functions, self.extra = functions, extra
        self.switches = switches
        self.aborts = aborts or {}
        self.n = len(functions)
        self.gates = [_thread.allocate_lock() for _ in functions]
        for g in self.gates:
            g.acquire()
        self.done = [False] * self.n
        self.counts = [0] * self.n
        self.results = [None] * self.n
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.local = threading.local()
        self.trace = []
        self.stalled = 0

    def is_sim_thread(self):
        return getattr(self.local, "me", None) is not None

    def _next(self, me):
        for d in range(1, self.n + 1):
            t = (me + d) % self.n
            if not self.done[t]:
                return t
        return None

    def _switch(self, me, to):
        if to == me or to is None or self.done[to]:
            return False
        self.trace.append((me, self.counts[me], to))
        self.gates[to].release()
        self.gates[me].acquire()
        return True

    def blocked(self):
        me = self.local.me
        to = self._next(me)
        self.stalled += 1
        if to is None or to == me or self.stalled > 10000:
            raise Violation("deadlock", "sessions wait for each other, or for a lock that nobody will ever release")
        self._switch(me, to)

    def _line(self, me):
        k = self.counts[me]
        self.counts[me] = k + 1
        to = self.switches.get((me, k))
        if to is not None:
            self._switch(me, to)
        if (me, k) in self.aborts:
            self.trace.append((me, k, "killed"))
            raise self.aborts[me, k]("injected death of a session")

    def _body(self, me):
        self.gates[me].acquire()
        self.local.me = me

        def local(frame, event, arg):
            if event == "line":
                self._line(me)
            return local

        def global_(frame, event, arg):
            return local if seams._wanted(frame.f_code.co_filename, self.extra) else None

        sys.settrace(global_)
        try:
            self.results[me] = ("ok", self.functions[me]())
        except BaseException as err:
            self.results[me] = ("err", err)
        finally:
            sys.settrace(None)
            self.done[me] = True
            to = self._next(me)
            self.local.me = None  # what follows (the end of the thread) is not part of the simulation
            if to is None:
                self.main.release()
            else:
                self.gates[to].release()

    def run(self, first=0):
        seams.CoopLock.scheduler = self
        try:
            threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
            for t in threads:
                t.start()
            self.gates[first].release()
            self.main.acquire()
            for t in threads:
                t.join()
        finally:
            seams.CoopLock.scheduler = None
        return self.results

"""Counts the work done by the repository's code (executed lines, jumps and branches) and stops it when a budget is spent."""
import sys

from sim.core import REPO_SRC, Violation

_mon = sys.monitoring
_TOOL = 3
_EVENTS = (_mon.events.LINE, _mon.events.JUMP, _mon.events.BRANCH)


class Work:
    """with Work(budget, what) as w: ... ; then w.n steps of the repository's code were executed."""

    def __init__(self, budget, what):
        self.budget, self.what, self.n = budget, what, 0

    def _step(self, code, *_):
        if not code.co_filename.startswith(REPO_SRC):
            return _mon.DISABLE
        self.n += 1
        if self.n > self.budget:
            raise Violation("endless", "%s did not end within %d steps of the library" % (self.what, self.budget))

    def __enter__(self):
        _mon.use_tool_id(_TOOL, "work")
        for e in _EVENTS:
            _mon.register_callback(_TOOL, e, self._step)
        _mon.set_events(_TOOL, sum(_EVENTS))
        return self

    def __exit__(self, *exc):
        _mon.set_events(_TOOL, 0)
        for e in _EVENTS:
            _mon.register_callback(_TOOL, e, None)
        _mon.free_tool_id(_TOOL)

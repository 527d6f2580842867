"""A second simulated process, forked from the present (pristine) state and used later."""
import ctypes
import json
import os
import signal
import traceback

from sim.core import HarnessError, Violation

_read, _write, _close = os.read, os.write, os.close
_libc = ctypes.CDLL(None, use_errno=True)


def _read_all(fd):
    chunks = []
    while True:
        b = _read(fd, 1 << 20)
        if not b:
            return b"".join(chunks)
        chunks.append(b)


def _write_all(fd, data):
    while data:
        data = data[_write(fd, data) :]


class Fresh:
    """Forked now; `call(arg)` makes it run fn(arg) and returns its (JSON) result. Usable once."""

    open_fds = set()  # ends held by this process, which later children must not inherit

    def __init__(self, fn):
        r1, self._to = os.pipe()
        self._from, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                _libc.prctl(1, signal.SIGKILL)  # die with the parent
                for fd in Fresh.open_fds | {self._to, self._from}:
                    _close(fd)
                Fresh.open_fds.clear()
                data = _read_all(r1)
                if not data:
                    os._exit(0)
                try:
                    out = ["ok", fn(json.loads(data))]
                except Violation as v:
                    out = ["violation", v.kind, v.detail]
                except BaseException:
                    out = ["harness", traceback.format_exc()[-3000:]]
                _write_all(w2, json.dumps(out).encode())
            finally:
                os._exit(0)
        _close(r1)
        _close(w2)
        Fresh.open_fds |= {self._to, self._from}

    def _close(self, fd):
        Fresh.open_fds.discard(fd)
        _close(fd)

    def call(self, arg):
        _write_all(self._to, json.dumps(arg).encode())
        self._close(self._to)
        data = _read_all(self._from)
        self._close(self._from)
        os.waitpid(self.pid, 0)
        self.pid = None
        if not data:
            raise Violation("process-died", "the other process died without an answer")
        out = json.loads(data)
        if out[0] == "violation":
            raise Violation(out[1], "in a new process: " + out[2])
        if out[0] == "harness":
            raise HarnessError(out[1])
        return out[1]

    def drop(self):
        if self.pid is not None:
            self._close(self._to)
            self._close(self._from)
            os.waitpid(self.pid, 0)
            self.pid = None

"""Simulated disk: the process's file calls under one scratch root go through numbered steps that can fail,
be cut short, be interrupted, crash the process, or be followed by a power loss that keeps only durable state.

Files live in a real scratch directory (real kernel semantics for names and content); this layer adds
the numbering of steps, the injection of faults and the bookkeeping of what is durable."""
import _io
import builtins
import errno
import io
import os
import shutil

from sim.core import HarnessError, SimCrash

_o = {
    name: getattr(os, name)
    for name in (
        "open write read close fsync fdatasync replace rename unlink remove truncate ftruncate link symlink chmod fchmod pwrite sync mkdir rmdir utime lseek sendfile"
    ).split()
    if hasattr(os, name)
}
_orig_open = builtins.open

ERRNO = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE, "edquot": errno.EDQUOT, "erofs": errno.EROFS}


class Inode:
    def __init__(self, durable):
        self.durable = durable  # content guaranteed to survive a power loss (None: nothing written yet)
        self.final = None  # content when it lost its last name


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, path, mode, reading, writing):
        self._disk, self._fd, self.name, self.mode = disk, fd, path, mode
        self._r, self._w = reading, writing
        self._life = disk.life

    def _alive(self):
        # An object of a process that died holds a descriptor number that now means another file, or none.
        if self._life != self._disk.life:
            raise SimCrash("the process that opened this file is dead")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def write(self, data):
        self._alive()
        return self._disk.do_write(self._fd, bytes(data))

    def readinto(self, buffer):
        self._alive()
        data = self._disk.do_read(self._fd, len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def seek(self, pos, whence=0):
        self._alive()
        return _o["lseek"](self._fd, pos, whence)

    def tell(self):
        self._alive()
        return _o["lseek"](self._fd, 0, 1)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self._disk.do_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            super().close()
            if self._life == self._disk.life:
                self._disk.do_close(self._fd)


class SimDisk:
    def __init__(self, root, ctx, bufsize=8192, chunk=8192):
        self.root = os.path.realpath(root)
        self.ctx, self.bufsize, self.chunk = ctx, max(1, bufsize), max(1, chunk)
        self.fds = {}  # fd -> path
        self.names = {}  # path -> Inode
        self.meta = []  # namespace operations since the last settle
        self.names0 = {}
        self.life = 0  # number of restarts
        self.reset_faults()
        self.installed = False

    # ---- fault plumbing ----
    def reset_faults(self):
        self.step_no, self.fault, self.dead, self.full, self.fired = 0, None, False, None, None
        self.read_fault, self.read_no = None, 0
        self.callback = None
        self.ops = []

    def arm(self, fault, callback=None):
        self.reset_faults()
        self.fault, self.callback = dict(fault) if fault else None, callback

    def arm_read(self, fault):
        self.reset_faults()
        self.read_fault = dict(fault) if fault else None

    def _fire(self, kind, op):
        self.fired = (kind, op, self.step_no)
        self.ctx.fault("disk:%s@%s" % (kind, op))
        self.ctx.event("fault", kind, op, self.step_no)

    def _oserror(self, code, path=None):
        return OSError(ERRNO[code], os.strerror(ERRNO[code]), path)

    def step(self, op, size=None, path=None):
        """Called before a mutating call. Returns None, or what to do after performing it (see perform)."""
        if self.dead:
            raise SimCrash("the process is dead")
        k = self.step_no
        self.step_no += 1
        self.ops.append(op)
        if self.full and op in ("write", "open", "truncate"):
            raise self._oserror(self.full, path)
        f = self.fault
        if not f or f["at"] != k:
            return None
        kind = f["kind"]
        when = f.get("when", "before")
        part = int(size * f.get("part", 0.5)) if size else 0
        if kind == "call":  # another process acts at this step
            self.fault = None
            self._fire(f.get("name", "call"), op)
            self.callback()
            return None
        if kind == "short":
            if op == "write" and size and size > 1:
                self._fire("short", op)
                return ("short", max(1, min(size - 1, part)))
            return None
        if kind in ERRNO:
            self._fire(kind, op)
            if kind in ("enospc", "edquot", "erofs") and f.get("sticky"):
                self.full = kind
            if op == "write" and part:
                return ("partial", part, self._oserror(kind, path))
            if op == "close":
                return ("after", self._oserror(kind, path))
            raise self._oserror(kind, path)
        exc = {"crash": SimCrash, "power": SimCrash, "interrupt": KeyboardInterrupt, "memory": MemoryError}[kind]
        self._fire(kind, op)
        if when == "part" and op == "write":
            return ("partial", part, self._die(exc))
        if when == "after":
            return ("after", self._die(exc))
        self._raise(self._die(exc))

    def _die(self, exc):
        # A dead process performs nothing more; the marking happens when the exception is raised.
        if exc is SimCrash:
            return _Dying()
        return exc("injected at an I/O step")

    def _finish(self, directive):
        if directive and directive[0] == "after":
            self._raise(directive[1])

    def _raise(self, exc):
        if isinstance(exc, _Dying):
            self.dead = True
            raise SimCrash("injected crash")
        raise exc

    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            text = os.fspath(path)
        except TypeError:
            return False
        if isinstance(text, bytes):
            text = os.fsdecode(text)
        full = os.path.abspath(text)
        return full == self.root or full.startswith(self.root + os.sep)

    def _abs(self, path):
        return os.path.abspath(os.fsdecode(os.fspath(path)))

    # ---- content bookkeeping ----
    def _content(self, path):
        try:
            fd = _o["open"](path, os.O_RDONLY)
        except OSError:
            return None
        try:
            chunks = []
            while True:
                b = _o["read"](fd, 1 << 20)
                if not b:
                    return b"".join(chunks)
                chunks.append(b)
        finally:
            _o["close"](fd)

    def settle(self):
        """Enough time passed: everything the kernel has is now durable."""
        live = {}
        for path in list(self.names):
            content = self._content(path)
            if content is not None:
                inode = self.names[path]
                inode.durable = content
                live[path] = inode
        self.names = live
        self.names0 = dict(live)
        self.meta = []

    # ---- performing calls ----
    def do_open(self, path, flags, mode=0o777, dir_fd=None):
        if dir_fd is not None or not self.mine(path) or isinstance(path, int):
            return _o["open"](path, flags, mode) if dir_fd is None else _o["open"](path, flags, mode, dir_fd=dir_fd)
        full = self._abs(path)
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if not writing:
            self._read_step("open-read", full)
            fd = _o["open"](full, flags, mode)
            self.fds[fd] = full
            return fd
        directive = self.step("open", path=full)
        existed = os.path.lexists(full)
        fd = _o["open"](full, flags, mode)
        if not existed:
            inode = Inode(None)
            self.names[full] = inode
            self.meta.append(("create", full, inode))
        elif full not in self.names:
            self.names[full] = Inode(self._content(full))
        self.fds[fd] = full
        if directive and directive[0] == "after":
            _o["close"](fd)
            self.fds.pop(fd, None)
        self._finish(directive)
        return fd

    def do_write(self, fd, data):
        if fd not in self.fds:
            return _o["write"](fd, data)
        directive = self.step("write", size=len(data), path=self.fds[fd])
        if directive and directive[0] == "short":
            return _o["write"](fd, data[: directive[1]])
        if directive and directive[0] == "partial":
            if directive[1]:
                _o["write"](fd, data[: directive[1]])
            self._raise(directive[2])
        n = _o["write"](fd, data)
        self._finish(directive)
        return n

    def do_pwrite(self, fd, data, offset):
        if fd in self.fds:
            directive = self.step("write", size=len(data), path=self.fds[fd])
            if directive and directive[0] in ("short", "partial"):
                n = _o["pwrite"](fd, data[: directive[1]], offset)
                if directive[0] == "partial":
                    self._raise(directive[2])
                return n
            n = _o["pwrite"](fd, data, offset)
            self._finish(directive)
            return n
        return _o["pwrite"](fd, data, offset)

    def _read_step(self, op, path):
        if self.dead:
            raise SimCrash("the process is dead")
        f = self.read_fault
        if f is None:
            return None
        k = self.read_no
        self.read_no += 1
        if f.get("short"):
            self.ctx.fault("disk:short@read")
        if f.get("at") == k and f.get("kind"):
            kind = f["kind"]
            self._fire(kind, op)
            if kind in ERRNO:
                raise self._oserror(kind, path)
            raise {"interrupt": KeyboardInterrupt, "memory": MemoryError}[kind]("injected while reading")
        return f.get("short")

    def do_read(self, fd, size):
        if fd not in self.fds:
            return _o["read"](fd, size)
        short = self._read_step("read", self.fds[fd])
        return _o["read"](fd, max(1, min(size, short)) if short else size)

    def do_ftruncate(self, fd, size):
        if not isinstance(fd, int) or fd not in self.fds:
            return _o["ftruncate"](fd, size)
        directive = self.step("truncate", path=self.fds[fd])
        _o["ftruncate"](fd, size)
        self._finish(directive)

    def do_truncate(self, path, size):
        if isinstance(path, int):
            return self.do_ftruncate(path, size)
        if not self.mine(path):
            return _o["truncate"](path, size)
        directive = self.step("truncate", path=self._abs(path))
        _o["truncate"](path, size)
        self._finish(directive)

    def do_close(self, fd):
        path = self.fds.pop(fd, None)
        if path is None:
            return _o["close"](fd)
        _o["close"](fd)
        if self.dead:
            return None
        if self.read_fault is None or self.fault is not None:
            self._finish(self.step_close(path))

    def step_close(self, path):
        return self.step("close", path=path)

    def do_fsync(self, fd, _op="fsync"):
        number = fd if isinstance(fd, int) else fd.fileno()
        if number not in self.fds:
            return None
        path = self.fds[number]
        directive = self.step("fsync", path=path)
        if os.path.isdir(path):
            self.names0 = dict(self.names)
            self.meta = []
        elif path in self.names:
            self.names[path].durable = self._content(path)
        self._finish(directive)

    def do_sync(self):
        self.settle()

    def do_rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None, _name="replace"):
        if src_dir_fd is not None or dst_dir_fd is not None or not (self.mine(src) or self.mine(dst)):
            return _o[_name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        s, d = self._abs(src), self._abs(dst)
        directive = self.step("rename", path=d)
        old = self.names.get(d)
        if old is not None:
            old.final = self._content(d)
        _o[_name](s, d)
        inode = self.names.pop(s, None) or Inode(self._content(d))
        self.names[d] = inode
        for fd, path in list(self.fds.items()):
            if path == s:
                self.fds[fd] = d
        self.meta.append(("rename", s, d, inode))
        self._finish(directive)

    def do_unlink(self, path, *, dir_fd=None):
        if dir_fd is not None or not self.mine(path):
            return _o["unlink"](path, dir_fd=dir_fd) if dir_fd is not None else _o["unlink"](path)
        full = self._abs(path)
        directive = self.step("unlink", path=full)
        inode = self.names.get(full)
        if inode is not None:
            inode.final = self._content(full)
        _o["unlink"](full)
        self.names.pop(full, None)
        self.meta.append(("unlink", full))
        self._finish(directive)

    def do_link(self, src, dst, **kw):
        if self.mine(src) and self.mine(dst):
            directive = self.step("link", path=self._abs(dst))
            _o["link"](src, dst, **kw)
            inode = self.names.get(self._abs(src)) or Inode(self._content(self._abs(src)))
            self.names[self._abs(dst)] = inode
            self.meta.append(("create", self._abs(dst), inode))
            self._finish(directive)
            return None
        return _o["link"](src, dst, **kw)

    def do_chmod(self, path, mode, **kw):
        if isinstance(path, int) or not self.mine(path):
            return _o["chmod"](path, mode, **kw)
        directive = self.step("chmod", path=self._abs(path))
        _o["chmod"](path, mode, **kw)
        self._finish(directive)

    # ---- open() ----
    def do_pyopen(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return _orig_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        flags_set = set(mode)
        binary, text = "b" in flags_set, "b" not in flags_set
        plus = "+" in flags_set
        base = (flags_set & set("rwax")).pop()
        reading = base == "r" or plus
        writing = base != "r" or plus
        flags = os.O_CLOEXEC | (os.O_RDWR if reading and writing else os.O_WRONLY if writing else os.O_RDONLY)
        flags |= {"r": 0, "w": os.O_CREAT | os.O_TRUNC, "a": os.O_CREAT | os.O_APPEND, "x": os.O_CREAT | os.O_EXCL}[base]
        if binary and (encoding or errors or newline is not None):
            raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
        if isinstance(file, int):
            fd, path = file, self.fds[file]
        else:
            path = self._abs(file)
            if os.path.isdir(path):
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            if opener is not None:
                fd = opener(os.fspath(file), flags)
                self.fds.setdefault(fd, path)
            else:
                fd = self.do_open(path, flags, 0o666)
        raw = SimRaw(self, fd, file if isinstance(file, int) else os.fspath(file), mode, reading, writing)
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if reading and writing:
            buffer = io.BufferedRandom(raw, size)
        elif writing:
            buffer = io.BufferedWriter(raw, size)
        else:
            buffer = io.BufferedReader(raw, size)
        if not text:
            return buffer
        wrapper = io.TextIOWrapper(buffer, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
        try:
            wrapper._CHUNK_SIZE = self.chunk
        except (AttributeError, ValueError):
            pass
        wrapper.mode = mode
        return wrapper

    # ---- crash, power loss, restart ----
    def restart(self):
        """The process is started again: no open files, no armed faults."""
        for fd in list(self.fds):
            try:
                _o["close"](fd)
            except OSError:
                pass
        self.fds.clear()
        self.life += 1
        self.reset_faults()

    def power_loss(self, u_cut, choice, part):
        """Keep only a state that a journalling file system may show after a power loss."""
        cut = min(int(u_cut * (len(self.meta) + 1)), len(self.meta))
        namespace = dict(self.names0)
        for entry in self.meta[:cut]:
            if entry[0] == "create":
                namespace[entry[1]] = entry[2]
            elif entry[0] == "rename":
                namespace.pop(entry[1], None)
                namespace[entry[2]] = entry[3]
            else:
                namespace.pop(entry[1], None)
        contents = {}
        for path, inode in namespace.items():
            current = None
            for now_path, now_inode in self.names.items():
                if now_inode is inode:
                    current = self._content(now_path)
            if current is None:
                current = inode.final if inode.final is not None else (inode.durable or b"")
            if inode.durable == current or choice == "keep":
                contents[path] = current
            elif choice == "durable":
                contents[path] = inode.durable or b""
            elif choice == "prefix":
                contents[path] = current[: int(len(current) * part)]
            else:
                contents[path] = b"\0" * len(current)
        for path in set(self.names) | set(namespace):
            try:
                _o["unlink"](path)
            except OSError:
                pass
        self.names = {}
        for path, content in contents.items():
            fd = _o["open"](path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
            view = content
            while view:
                view = view[_o["write"](fd, view) :]
            _o["close"](fd)
            self.names[path] = Inode(content)
        self.ctx.fault("disk:power-loss(%s)" % choice)
        self.restart()
        self.settle()

    def put(self, path, content):
        """Place bytes in the scratch directory, behind the back of the code under test."""
        fd = _o["open"](path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
        while content:
            content = content[_o["write"](fd, content) :]
        _o["close"](fd)
        self.names.setdefault(path, Inode(None))

    # ---- installation ----
    def install(self):
        if self.installed:
            return self
        self.installed = True
        patches = {
            "open": self.do_open, "write": self.do_write, "close": self.do_close, "fsync": self.do_fsync,
            "fdatasync": self.do_fsync, "replace": self.do_rename,
            "rename": lambda s, d, **kw: self.do_rename(s, d, _name="rename", **kw),
            "unlink": self.do_unlink, "remove": self.do_unlink, "truncate": self.do_truncate,
            "ftruncate": self.do_ftruncate, "link": self.do_link, "chmod": self.do_chmod, "pwrite": self.do_pwrite,
            "sync": self.do_sync, "read": self.do_read,
        }
        for name, fn in patches.items():
            setattr(os, name, fn)
        builtins.open = io.open = _io.open = self.do_pyopen
        self._sendfile = shutil._USE_CP_SENDFILE
        shutil._USE_CP_SENDFILE = False
        return self

    def uninstall(self):
        if not self.installed:
            return
        self.installed = False
        self.restart()
        for name, fn in _o.items():
            setattr(os, name, fn)
        builtins.open = io.open = _io.open = _orig_open
        shutil._USE_CP_SENDFILE = self._sendfile

    __enter__ = install

    def __exit__(self, *exc):
        self.uninstall()


class _Dying(Exception):
    """Marker for a crash that happens once the current call has had its (partial) effect."""

"""Simulated disk: real files below one scratch root, every operation of the code under test counted, scheduled and open to faults.

Each simulated process has its own operation counters and its own fault list. A fault is {"p": process, "on": operation kind or "any", "n": which
occurrence, "k": fault kind, "len": for how many further operations it lasts}. Fault kinds: eio, enospc, eacces, exdev (renames), short (partial but
successful read or write), torn (part of a write reaches the file, then the process dies), crash (the process dies before the operation).
A dead process does nothing any more: buffered bytes are lost, what was written stays (process-crash model)."""
import builtins
import errno
import io
import os
import shutil
import threading

from . import sched

_real = {}
DISK = None


class SimCrash(BaseException):
    """The simulated process is dead."""


class Proc:
    def __init__(self, name, faults=()):
        self.name, self.dead, self.counts, self.total = name, False, {}, 0
        self.faults = [dict(f) for f in faults]
        self.fired = []


ERR = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "exdev": errno.EXDEV, "erofs": errno.EROFS}
WRITES = {"write", "create", "mkdir", "rename", "trunc"}
APPLIES = {"eio": {"read", "write", "open", "create", "unlink", "rename", "mkdir", "rmdir", "stat", "sync", "close"}, "enospc": WRITES, "eacces": {"open", "create", "unlink", "rename", "mkdir", "rmdir"},
           "exdev": {"rename"}, "short": {"read", "write"}, "torn": {"write"}, "crash": None}


class Disk:
    def __init__(self, root, ctx=None, bufsize=None, faults=()):
        self.root = os.path.realpath(root)
        self.ctx, self.bufsize = ctx, bufsize
        self.main = Proc("main", [f for f in faults if f.get("p", "main") == "main"])
        self.locale = None  # encoding of files opened without one
        self.quiet = None  # beginning of the names of files whose operations are no switch points (the caller holds a real lock)
        self.opens = []  # (proc, mode, path) history
        self.on_read = None  # callback(proc, path, whole content) when a file is opened for reading
        self.on_bytes = None  # callback(proc, path, offset, bytes) for every piece read

    def proc(self):
        t = sched.current_task()
        if t is not None:
            return t.data.get("proc", self.main)
        return self.main

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        return p.startswith(self.root + "/") or p == self.root

    def op(self, kind, path, n=None, may_fail=True):
        """Account one operation; raises the fault that is due, or returns the number of bytes allowed."""
        p = self.proc()
        if p.dead:
            raise SimCrash(p.name)
        if not (self.quiet and os.path.basename(str(path)).startswith(self.quiet)):
            sched.io_yield()
        p.total += 1
        c = p.counts[kind] = p.counts.get(kind, 0) + 1
        for f in p.faults:
            on = f.get("on", "any")
            if on not in ("any", kind) or f.get("path") and f["path"] not in os.path.basename(str(path)):
                continue
            if f.get("path"):
                f["_seen"] = f.get("_seen", 0) + 1
                k = f["_seen"]
            else:
                k = p.total if on == "any" else c
            if not (f["n"] <= k <= f["n"] + f.get("len", 0)):
                continue
            fk = f["k"]
            ok = APPLIES[fk]
            if ok is not None and kind not in ok:
                continue
            if not may_fail and fk not in ("crash",):
                continue
            p.fired.append((fk, kind, os.path.basename(str(path))))
            if self.ctx is not None:
                self.ctx.count("fault:disk_" + fk)
                self.ctx.event("fault", p.name, fk, kind, rel(self, path))
            if fk == "crash":
                p.dead = True
                raise SimCrash(p.name)
            if fk == "torn":
                return ("torn", max(0, (n or 1) * (1 + f.get("frac", 0)) // 4))
            if fk == "short":
                if n and n > 1:
                    return max(1, n // 2)
                continue
            raise OSError(ERR[fk], "simulated: " + os.strerror(ERR[fk]), str(path))
        return n


def rel(d, path):
    s = str(path)
    return s[len(d.root):] if s.startswith(d.root) else s


class SimRaw(io.FileIO):
    """Unbuffered file whose reads and writes pass through the simulated disk."""

    def __init__(self, path, mode, closefd=True, opener=None, name=None):
        super().__init__(path, mode, closefd, opener)
        self._path = name or path
        self._disk = DISK
        self._proc = DISK.proc()

    def _dead(self):
        return self._proc.dead

    def write(self, b):
        if self._dead():
            raise SimCrash(self._proc.name)
        n = memoryview(b).nbytes
        r = self._disk.op("write", self._path, n)
        if isinstance(r, tuple):
            super().write(memoryview(b).cast("B")[:r[1]])
            self._proc.dead = True
            raise SimCrash(self._proc.name)
        if r is not None and r < n:
            return super().write(memoryview(b).cast("B")[:r])
        return super().write(b)

    def readinto(self, b):
        if self._dead():
            raise SimCrash(self._proc.name)
        n = memoryview(b).nbytes
        r = self._disk.op("read", self._path, n)
        v = memoryview(b).cast("B")
        at = self.tell() if self._disk.on_bytes is not None else 0
        got = super().readinto(v[:r] if r is not None and r < n else v)
        if self._disk.on_bytes is not None and n:
            self._disk.on_bytes(self._proc, str(self._path), at, bytes(v[:got]))
        return got

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = b""
        while True:
            buf = bytearray(1 << 16)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def close(self):
        """Closing a written file may report an error, as remote file systems do."""
        first = not self.closed
        wr = first and self.writable()
        super().close()
        if wr and not self._dead():
            self._disk.op("close", self._path)

    def truncate(self, size=None):
        if self._dead():
            raise SimCrash(self._proc.name)
        self._disk.op("trunc", self._path)
        return super().truncate(size)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d is None or isinstance(file, int) and not _fd_inside(d, file) or not isinstance(file, int) and not d.inside(file):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary, text = "b" in mode, "b" not in mode
    creating = any(c in mode for c in "wax")
    raw_mode = ("x" if "x" in mode else "") + ("r" if "r" in mode else "") + ("w" if "w" in mode else "") + ("a" if "a" in mode else "") + ("+" if "+" in mode else "")
    if text and encoding is None:
        encoding = d.locale or "utf-8"
    path = file if not isinstance(file, int) else os.readlink(f"/proc/self/fd/{file}")
    if not isinstance(file, int):
        d.op("create" if creating else "open", path)
    d.opens.append((d.proc().name, mode, str(path)))
    raw = SimRaw(file, raw_mode, closefd, opener, name=path)
    if "r" in mode and "+" not in mode and d.on_read is not None and not isinstance(file, int):
        with _real["open"](path, "rb") as f:
            d.on_read(d.proc(), str(path), f.read())
    if buffering == 0:
        return raw
    line = buffering == 1 and text
    size = d.bufsize or io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif creating:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line)
    t.mode = mode
    return t


def _fd_inside(d, fd):
    try:
        return d.inside(os.readlink(f"/proc/self/fd/{fd}"))
    except OSError:
        return False


def _full(path, dir_fd):
    if isinstance(path, int):
        return os.readlink(f"/proc/self/fd/{path}")
    p = os.fspath(path)
    if dir_fd is not None:
        p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
    return p


def _wrap1(name, kind):
    real = getattr(os, name)
    _real[name] = real

    def w(path, *a, dir_fd=None, **k):
        d = DISK
        if d is not None:
            try:
                full = _full(path, dir_fd)
            except (TypeError, OSError):
                full = None
            if full is not None and d.inside(full):
                d.op(kind, full)
        if dir_fd is not None:
            k["dir_fd"] = dir_fd
        return real(path, *a, **k)
    w.__name__ = name
    return w


def _wrap2(name):
    real = getattr(os, name)
    _real[name] = real

    def w(src, dst, *a, **k):
        d = DISK
        if d is not None and (d.inside(src) or d.inside(dst)):
            d.op("rename", dst)
        return real(src, dst, *a, **k)
    w.__name__ = name
    return w


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = DISK
    if d is not None:
        try:
            full = _full(path, dir_fd)
        except (TypeError, OSError):
            full = None
        if full is not None and d.inside(full) and not flags & os.O_DIRECTORY:
            d.op("create" if flags & os.O_CREAT else "open", full)
    return _real["os.open"](path, flags, mode, dir_fd=dir_fd)


def _os_write(fd, data):
    d = DISK
    if d is not None and fd > 2 and _fd_inside(d, fd):
        n = d.op("write", os.readlink(f"/proc/self/fd/{fd}"), len(data))
        if isinstance(n, tuple):
            _real["os.write"](fd, bytes(data)[:n[1]])
            d.proc().dead = True
            raise SimCrash(d.proc().name)
        data = bytes(data)[:n]
    return _real["os.write"](fd, data)


def _os_stat(path, *, dir_fd=None, follow_symlinks=True):
    d = DISK
    if d is not None and dir_fd is None and not isinstance(path, int) and d.inside(path):
        d.op("stat", path, may_fail=False)
    return _real["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def install():
    if _real:
        return
    _real["open"] = builtins.open
    for name, kind in (("unlink", "unlink"), ("remove", "unlink"), ("mkdir", "mkdir"), ("rmdir", "rmdir")):
        w = _wrap1(name, kind)
        real = _real[name]
        for s in (os.supports_dir_fd, os.supports_follow_symlinks, os.supports_fd):
            if real in s:
                s.add(w)
        setattr(os, name, w)
    for name in ("replace", "rename"):
        setattr(os, name, _wrap2(name))
    _real["os.open"], _real["os.stat"], _real["os.write"] = os.open, os.stat, os.write
    for real, w in ((os.open, _os_open), (os.stat, _os_stat)):
        for s in (os.supports_dir_fd, os.supports_follow_symlinks, os.supports_fd):
            if real in s:
                s.add(w)
    os.open, os.stat, os.write = _os_open, _os_stat, _os_write
    builtins.open = _sim_open
    io.open = _sim_open
    import tempfile
    if hasattr(tempfile, "_io"):
        class _IO:  # tempfile opens through its own alias of the io module
            open = staticmethod(_sim_open)

            def __getattr__(self, k):
                return getattr(io, k)
        tempfile._io = _IO()
    shutil._USE_CP_SENDFILE = False
    import torch
    _real["torch.save"], _real["torch.load"] = torch.save, torch.load

    def tsave(obj, f, *a, **k):
        """torch writes named files from C++; go through the simulated disk instead."""
        if DISK is not None and isinstance(f, (str, os.PathLike)) and DISK.inside(f):
            with _sim_open(f, "wb") as fp:
                return _real["torch.save"](obj, fp, *a, **k)
        return _real["torch.save"](obj, f, *a, **k)

    def tload(f, *a, **k):
        if DISK is not None and isinstance(f, (str, os.PathLike)) and DISK.inside(f):
            with _sim_open(f, "rb") as fp:
                return _real["torch.load"](fp, *a, **k)
        return _real["torch.load"](f, *a, **k)
    torch.save, torch.load = tsave, tload


def mount(d):
    global DISK
    DISK = d
    return d


def unmount():
    global DISK
    DISK = None


class off:
    """with off(): harness file access that is not part of the simulation."""

    def __enter__(self):
        global DISK
        self.d, DISK = DISK, None

    def __exit__(self, *a):
        global DISK
        DISK = self.d
        return False

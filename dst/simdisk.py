"""A simulated disk under one directory prefix: real Python buffering and text layers, simulated raw writes with faults."""

from __future__ import annotations

import builtins
import contextlib
import errno
import io
import os
import stat as statmod

PREFIX = "/dst-simulated-disk/"
FD0 = 1_000_000


class SimDisk:
    """Files in memory.  `script(op, detail)` decides each operation: None = normal, an errno, or ("short", n)."""

    def __init__(self, script, encoding="utf-8"):
        self.script = script
        self.encoding = encoding
        self.files = {}
        self.fds = {}
        self.next = FD0
        self.failed = []      # faults that were raised into the code under test
        self.ops = 0
        self.raws = []

    # -- primitive operations
    def _op(self, op, detail=None):
        self.ops += 1
        f = self.script(op, detail)
        if isinstance(f, int):
            self.failed.append((op, f))
            raise OSError(f, os.strerror(f))
        return f

    def o_open(self, path, flags, mode=0o777):
        self._op("open", path)
        exists = path in self.files
        if not exists and not flags & os.O_CREAT:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if exists and flags & os.O_EXCL and flags & os.O_CREAT:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        if not exists or flags & os.O_TRUNC:
            self.files[path] = bytearray()
        fd = self.next
        self.next += 1
        self.fds[fd] = [path, len(self.files[path]) if flags & os.O_APPEND else 0]
        return fd

    def o_write(self, fd, data):
        if fd not in self.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        data = bytes(data)
        f = self._op("write", len(data))
        if isinstance(f, tuple):
            data = data[: max(1, min(len(data), f[1]))]
        path, pos = self.fds[fd]
        buf = self.files[path]
        buf[pos:pos + len(data)] = data
        self.fds[fd][1] = pos + len(data)
        return len(data)

    def o_close(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        try:
            self._op("close")
        finally:
            del self.fds[fd]

    def o_fsync(self, fd):
        self._op("fsync")

    def o_replace(self, a, b):
        self._op("rename", b)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        self.files[b] = self.files.pop(a)
        for v in self.fds.values():
            if v[0] == a:
                v[0] = b

    def o_unlink(self, a):
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        del self.files[a]

    # -- Python file objects
    def py_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        binary = "b" in mode
        if isinstance(file, int):
            fd = file
        else:
            flags = {"w": os.O_CREAT | os.O_TRUNC | os.O_WRONLY, "a": os.O_CREAT | os.O_APPEND | os.O_WRONLY,
                     "x": os.O_CREAT | os.O_EXCL | os.O_WRONLY, "r": os.O_RDONLY}[mode.replace("b", "").replace("t", "").replace("+", "")]
            fd = self.o_open(os.fspath(file), flags)
        raw = _Raw(self, fd, "r" in mode or "+" in mode, any(c in mode for c in "wax+"))
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedReader(raw, size) if mode.replace("b", "").replace("t", "") == "r" else io.BufferedWriter(raw, size)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding=encoding or self.encoding, errors=errors, newline=newline if newline is not None else "\n",
                                line_buffering=buffering == 1)


class _Raw(io.RawIOBase):
    def __init__(self, disk, fd, r, w):
        self.disk, self.fd, self._r, self._w = disk, fd, r, w
        self.name = fd
        disk.raws.append(self)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def fileno(self):
        return self.fd

    def readinto(self, b):
        path, pos = self.disk.fds[self.fd]
        d = bytes(self.disk.files[path][pos:pos + len(b)])
        b[:len(d)] = d
        self.disk.fds[self.fd][1] = pos + len(d)
        return len(d)

    def write(self, b):
        return self.disk.o_write(self.fd, bytes(b))

    def close(self):
        if not self.closed:
            super().close()
            self.disk.o_close(self.fd)


@contextlib.contextmanager
def mounted(disk):
    """Route every file operation below PREFIX (and on simulated descriptors) to the simulated disk."""

    def sim(p):
        try:
            return isinstance(p, (str, os.PathLike)) and os.fspath(p).startswith(PREFIX)
        except TypeError:
            return False

    real = {n: getattr(os, n) for n in ("open", "write", "close", "fsync", "fdatasync", "replace", "rename", "unlink", "remove", "stat", "fstat", "mkdir", "access", "lstat")}
    ropen = io.open

    def popen(file, mode="r", *a, **k):
        if sim(file) or (isinstance(file, int) and not isinstance(file, bool) and file >= FD0):
            return disk.py_open(file, mode, *a, **k)
        return ropen(file, mode, *a, **k)

    def st(path, *a, **k):
        if sim(path):
            p = os.fspath(path)
            if p in disk.files:
                return os.stat_result((statmod.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(disk.files[p]), 0, 0, 0))
            if any(f.startswith(p.rstrip("/") + "/") for f in disk.files) or p.rstrip("/") + "/" == PREFIX:
                return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        return real["stat"](path, *a, **k)

    def on(name, f, fdarg=False):
        def w(x, *a, **k):
            if (isinstance(x, int) and x >= FD0) if fdarg else sim(x):
                return f(x if fdarg else os.fspath(x), *a, **k)
            return real[name](x, *a, **k)

        return w

    patches = {
        "open": on("open", disk.o_open), "write": on("write", disk.o_write, True), "close": on("close", disk.o_close, True),
        "fsync": on("fsync", disk.o_fsync, True), "fdatasync": on("fdatasync", disk.o_fsync, True),
        "replace": on("replace", lambda a, b, **k: disk.o_replace(a, os.fspath(b))), "rename": on("rename", lambda a, b, **k: disk.o_replace(a, os.fspath(b))),
        "unlink": on("unlink", lambda a, **k: disk.o_unlink(a)), "remove": on("remove", lambda a, **k: disk.o_unlink(a)),
        "stat": st, "lstat": st, "mkdir": on("mkdir", lambda *a, **k: None), "access": on("access", lambda *a, **k: True),
        "fstat": on("fstat", lambda fd: os.stat_result((statmod.S_IFREG | 0o644, 1, 1, 1, 0, 0, 0, 0, 0, 0)), True),
    }
    bopen = builtins.open
    try:
        for n, f in patches.items():
            setattr(os, n, f)
        io.open = popen
        builtins.open = popen
        yield disk
    finally:
        for n, f in real.items():
            setattr(os, n, f)
        io.open = ropen
        builtins.open = bopen

"""Seam for input files: the package's opens and reads below a scenario's directory.

While active, ``open`` (builtins and io) is replaced.  Files elsewhere are untouched.  Faults are a list
of dicts {file, kind, arg, count}: "enoent", "eacces", "eio_open", "eio_read" (after arg bytes),
"short" (reads return at most arg bytes), "torn" (file appears cut at arg bytes), "emfile".  count
limits how many opens are hit (transient faults); -1 means lasting.
"""
import builtins
import errno
import gc
import io
import os
import weakref

_real_open = builtins.open


class FaultyRaw(io.RawIOBase):
    def __init__(self, path, kind, arg, disk):
        super().__init__()
        self._f = _real_open(path, "rb", buffering=0)
        self._kind, self._arg, self._disk = kind, arg, disk
        self._posn = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self._posn = self._f.seek(off, whence)
        return self._posn

    def tell(self):
        return self._f.tell()

    def readinto(self, b):
        n = len(b)
        if self._kind == "eio_read":
            if self._posn >= self._arg:
                self._disk.fire("eio_read")
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            n = min(n, self._arg - self._posn)
        elif self._kind == "short":
            if n > self._arg:
                self._disk.fire("short")
            n = min(n, max(1, self._arg))
        elif self._kind == "torn":
            if self._posn >= self._arg:
                self._disk.fire("torn")
                return 0
            n = min(n, self._arg - self._posn)
        data = self._f.read(n)
        b[: len(data)] = data
        self._posn += len(data)
        return len(data)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if not self.closed:
            self._f.close()
            self._disk.live.discard(id(self))
        super().close()


class Disk:
    def __init__(self, root, faults=()):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.fired = {}
        self.opened = {}
        self.live = set()
        self.handles = []

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(path, str) or not path.startswith(self.root + os.sep):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        name = os.path.basename(path)
        self.opened[name] = self.opened.get(name, 0) + 1
        for f in self.faults:
            if f["file"] != name or f.get("count", -1) == 0:
                continue
            if f.get("skip", 0) > 0:  # this many opens succeed first
                f["skip"] -= 1
                continue
            if f.get("count", -1) > 0:
                f["count"] -= 1
            k = f["kind"]
            no = {"enoent": errno.ENOENT, "eacces": errno.EACCES, "eio_open": errno.EIO, "emfile": errno.EMFILE}.get(k)
            if no is not None:
                self.fire(k)
                raise OSError(no, os.strerror(no), str(file))
            if "r" in mode and "+" not in mode:
                raw = FaultyRaw(path, k, f.get("arg", 0), self)
                self.live.add(id(raw))
                buf = io.BufferedReader(raw, 256 if k == "short" else 8192)
                if "b" in mode:
                    h = buf
                else:
                    h = io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)
                self.handles.append(weakref.ref(h))
                return h
        h = _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.handles.append(weakref.ref(h))
        return h

    def leaked(self):
        """Handles the code under test opened and left open."""
        gc.collect()
        return [h() for h in self.handles if h() is not None and not h().closed]

    def __enter__(self):
        self._saved = (builtins.open, io.open)
        builtins.open = self._open
        io.open = self._open
        return self

    def __exit__(self, *exc):
        builtins.open, io.open = self._saved
        return False

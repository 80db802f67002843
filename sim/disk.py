"""A simulated disk in front of the files of pykalman/datasets.

Every open() of such a file during a run goes through `Disk`, which serves the
real bytes and injects what the plan says.  All other files are untouched.
"""

import builtins
import errno
import io
import os

ERRNO = {"ENOENT": errno.ENOENT, "EACCES": errno.EACCES, "EIO": errno.EIO,
         "EMFILE": errno.EMFILE, "ENFILE": errno.ENFILE, "ESTALE": errno.ESTALE}


def root():
    """The directory of the real data sets, wherever the library lies."""
    import pykalman
    return os.path.join(os.path.dirname(os.path.realpath(pykalman.__file__)), "datasets") + os.sep


class Raw(io.RawIOBase):
    """The bytes of one open file, with its faults."""

    def __init__(self, disk, name, data, fault, chunk):
        self.disk, self.name, self.data = disk, name, data
        self.fault, self.chunk = fault, chunk
        self.pos = 0
        self.mode = "rb"

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        self.pos = max(0, base + pos)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        want = len(buf)
        if self.chunk:
            want = min(want, self.chunk)
            if want < len(buf):
                self.disk.fired("short-read")
        if self.fault and self.fault[0] == "read" and self.pos + want > self.fault[2]:
            if self.pos >= self.fault[2]:
                self.disk.fail(self.fault[1], self.name)
            want = self.fault[2] - self.pos
        part = self.data[self.pos:self.pos + want]
        buf[:len(part)] = part
        self.pos += len(part)
        return len(part)

    def close(self):
        if not self.closed:
            super().close()
            if self.fault and self.fault[0] == "close":
                self.disk.fired("close." + self.fault[1])
                raise OSError(ERRNO[self.fault[1]], "injected on close", self.name)


class Disk:
    """Context manager; `faults` is a list of dicts, one per open, then none."""

    content = {}  # bytes to serve instead of the real ones, by file name

    def __init__(self, faults, ctx=None):
        self.faults = list(faults)
        self.ctx = ctx
        self.files = []
        self.errors = []
        self.hits = 0
        self.n_open = 0
        self.root = root()

    def fired(self, what):
        self.hits += 1
        if self.ctx is not None:
            self.ctx.fault("disk." + what)

    def fail(self, code, name):
        self.fired("read." + code)
        e = OSError(ERRNO[code], "injected", name)
        self.errors.append(e)
        raise e

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        try:
            name = os.fspath(file)
            name = name.decode() if isinstance(name, bytes) else name
        except TypeError:
            name = ""
        if not os.path.realpath(name).startswith(self.root) or set(mode) - set("rbt"):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        f = self.faults.pop(0) if self.faults else {}
        self.n_open += 1
        if f.get("open"):
            self.fired("open." + f["open"])
            e = OSError(ERRNO[f["open"]], "injected", name)
            self.errors.append(e)
            raise e
        data = self.content.get(os.path.basename(name))
        if data is None or not os.path.exists(name):
            with self.real(name, "rb") as r:
                data = r.read()
        fault = None
        if f.get("read"):
            fault = ["read", f["read"], int(f["u"] * len(data))]
        if f.get("torn"):
            data = data[:int(f["u"] * len(data))]
            self.fired("torn")
        if f.get("close"):
            fault = ["close", f["close"]]
        raw = Raw(self, name, data, fault, f.get("chunk"))
        self.files.append(raw)
        if buffering == 0:
            return raw
        b = io.BufferedReader(raw, 512 if f.get("chunk") else 8192)
        if "b" in mode:
            return b
        return io.TextIOWrapper(b, encoding=encoding, errors=errors, newline=newline)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = self.real
        return False

    def leaked(self):
        return [f.name for f in self.files if not f.closed]

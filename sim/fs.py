"""An in-memory file system with injected faults, behind builtins.open, io.open and urllib.request.urlopen.

Files are bytes by name.  What a program wrote is in the file only once it has been flushed; a file nobody closes keeps its
last buffer for ever (which is what may happen under PyPy, and does happen when the process is killed).  Each fault is one
injected failure: opening refused, a read or write that fails, comes back short or hits a full disk, a failing close, or an
interrupt while waiting."""
import builtins
import errno
import io
import posixpath
import urllib.error
import urllib.request

from . import core

_open = builtins.open
_io_open = io.open
_urlopen = urllib.request.urlopen


class Raw(io.RawIOBase):
    def __init__(self, fs, name, mode):
        super().__init__()
        self.fs, self.name, self.mode = fs, name, mode
        self.pos = len(fs.files[name]) if "a" in mode else 0
        self.dead = False
        self.data = fs.files[name] if "r" not in mode else bytes(fs.files[name])   # a reader keeps the file it opened

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return self.mode[0] in "wax" or "+" in self.mode

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        del self.data[self.pos if n is None else n:]
        return len(self.data)

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if not self.dead:
            f = self.fs.fault("read")
            if f == "short":
                n = min(n, max(1, n // 3))
            elif f:
                self.fs.fail(f, self.name)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        b = bytes(b)
        if self.dead:
            return len(b)
        f = self.fs.fault("write")
        n = len(b)
        if f == "short":
            n = max(1, n // 2)
        elif f == "ENOSPC":     # what still fitted is there; the disk stays full
            n = n // 2
            self._put(b[:n])
            self.fs.full = True
            self.fs.fail(f, self.name)
        elif f:
            self.fs.fail(f, self.name)
        elif self.fs.full:
            self.fs.fail("ENOSPC", self.name)
        self._put(b[:n])
        return n

    def _put(self, b):
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def close(self):
        if self.closed:
            return
        super().close()
        if not self.dead:
            f = self.fs.fault("close")
            if f:
                self.fs.fail(f, self.name)


class SimFS(object):
    """Context manager: the program under test sees these files and no others (its own source code excepted)."""

    def __init__(self, files=None):
        self.files = {self.norm(k): bytearray(v if isinstance(v, bytes) else v.encode("utf-8")) for k, v in (files or {}).items()}
        self.opened = []        # strong references: nothing is flushed by the garbage collector
        self.plan = []          # [operation, nth, fault]
        self.count = {}
        self.full = False
        self.fired = []
        self.total = {}
        self.log = []
        self.before_open = None
        self.on_io = None

    @staticmethod
    def norm(path):
        path = str(path)
        return path if "://" in path else posixpath.normpath(path)

    # -------------------------------------------------------------- faults
    def arm(self, plan):
        self.plan, self.count, self.fired, self.full = [list(x) for x in plan or []], {}, [], False

    def fault(self, op):
        self.count[op] = self.count.get(op, 0) + 1
        if self.on_io is not None:
            self.on_io(op)
        for x in self.plan:
            if x[0] == op and x[1] == self.count[op]:
                self.fired.append(x)
                k = "%s:%s" % (op, x[2])
                self.total[k] = self.total.get(k, 0) + 1
                return x[2]
        return None

    def fail(self, f, name):
        if f == "KeyboardInterrupt":
            raise KeyboardInterrupt()
        if f == "EOFError":
            raise EOFError()
        raise OSError(getattr(errno, f), "simulated " + f, name)

    # -------------------------------------------------------------- opening
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or (str(file).startswith("/") and not str(file).startswith("/sim/") and mode in ("r", "rb", "rt")):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        name = self.norm(file)
        if name.startswith("/") and not name.startswith("/sim/"):
            raise core.HarnessError("the program under test writes to " + name)
        f = self.fault("open")
        if f:
            self.fail(f, name)
        self.log.append([mode[0], name])
        kind = mode[0]
        if self.before_open is not None:
            self.before_open(name, kind)
        if kind == "r" and name not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", name)
        if kind == "x" and name in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", name)
        if kind == "w" or name not in self.files:
            self.files[name] = bytearray()
        raw = Raw(self, name, mode.replace("b", "").replace("t", ""))
        b = raw if buffering == 0 else io.BufferedRandom(raw, 256) if "+" in mode else io.BufferedReader(raw, 256) if kind == "r" else io.BufferedWriter(raw, 8192 if buffering < 2 else buffering)
        if "b" not in mode:
            b = io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
        self.opened.append((raw, b))
        return b

    def urlopen(self, url, *a, **k):
        name = self.norm(url if isinstance(url, str) else url.full_url)
        f = self.fault("open")
        if f == "KeyboardInterrupt":
            self.fail(f, name)
        if f or name not in self.files:
            raise urllib.error.URLError(OSError(getattr(errno, f or "ECONNREFUSED"), "simulated"))
        self.log.append(["r", name])
        if self.before_open is not None:
            self.before_open(name, "r")
        raw = Raw(self, name, "r")
        b = io.BufferedReader(raw, 256)
        self.opened.append((raw, b))
        return b

    def left_open(self):
        return [raw.name for raw, b in self.opened if not raw.closed]

    def snapshot(self):
        return {k: bytes(v) for k, v in self.files.items()}

    def __enter__(self):
        builtins.open = io.open = self.open
        urllib.request.urlopen = self.urlopen
        return self

    def __exit__(self, *a):
        builtins.open, io.open, urllib.request.urlopen = _open, _io_open, _urlopen
        for raw, b in self.opened:
            raw.dead = True
        for raw, b in self.opened:
            try:
                b.close()
            except Exception:
                pass
        self.opened = []

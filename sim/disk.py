"""A simulated disk under a scratch directory.

``open`` of any file below the root goes through the simulation: every open, read, seek
and write is one operation, at which the plan may let the disk fail, return fewer bytes
than asked for, report the end of the file early, run full, or let another process
atomically replace the file.  Files elsewhere are not touched.
"""
import builtins
import errno
import io
import os

from . import sched


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND}[mode[0]]
        if "+" in mode:
            flags = flags & ~(os.O_WRONLY | os.O_RDONLY) | os.O_RDWR
        self._fd = -1
        self._end = None
        self._disk = disk
        self.name = path
        self.mode = mode[0] + "b" + mode[1:]
        self._r = "r" in mode or "+" in mode
        self._w = "r" not in mode or "+" in mode
        self._fd = os.open(path, flags | os.O_CLOEXEC, 0o666)
        disk.open_files += 1

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self._fd < 0:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def seek(self, pos, whence=0):
        return os.lseek(self.fileno(), pos, whence)

    def tell(self):
        return os.lseek(self.fileno(), 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self.fileno(), self.tell() if size is None else size)
        return size

    def readinto(self, b):
        n = len(b)
        k = self._disk.op("read", self.name)
        if k == "short" and n > 1:
            n = max(1, int(n * 0.4))
        elif k == "eof":
            # from now on this is where the file ends
            self._end = self.tell()
        if self._end is not None:
            n = min(n, max(0, self._end - self.tell()))
            if n == 0:
                return 0
        data = os.read(self.fileno(), n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        n = len(b)
        k = self._disk.op("write", self.name)
        if k == "short" and n > 1:
            n = max(1, int(n * 0.4))
        d = self._disk
        if d.space is not None:
            if d.space <= 0:
                d.ctx.fault("disk_full")
                raise OSError(errno.ENOSPC, "simulated: no space left on device", self.name)
            n = min(n, d.space)
            d.space -= n
        return os.write(self.fileno(), bytes(b[:n]))

    def close(self):
        if self._fd >= 0:
            os.close(self._fd)
            self._fd = -1
            self._disk.open_files -= 1
        super().close()


class Disk:
    """faults: [{"op": n, "k": "eio"|"short"|"eof"|"open_eio"}], hooks: {n: callable}."""

    def __init__(self, root, ctx):
        self.root = os.path.realpath(root) + os.sep
        self.ctx = ctx
        self.n = 0
        self.open_files = 0
        self.faults = {}
        self.hooks = {}
        self.space = None
        self.log = []

    def reset(self, faults=(), hooks=None):
        """Count operations from zero for the next call."""
        self.n = 0
        self.faults = {f["op"]: f["k"] for f in faults}
        self.hooks = dict(hooks or {})
        self.log = []
        self.space = None

    def op(self, what, path):
        sched.point("disk")
        i = self.n
        self.n += 1
        self.log.append(what)
        h = self.hooks.pop(i, None)
        if h is not None:
            h()
        k = self.faults.pop(i, None)
        if k is None:
            return None
        self.ctx.shape("disk", what, k, i)
        if k == "eio":
            self.ctx.fault("disk_error_" + what)
            raise OSError(errno.EIO, "simulated: input/output error", path)
        if k == "short" and what != "open":
            self.ctx.fault("short_" + what)
        elif k == "eof" and what == "read":
            self.ctx.fault("early_end_of_file")
        return k

    def _open(self, orig):
        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            path = None
            if isinstance(file, (str, bytes, os.PathLike)):
                path = os.fspath(file)
                if isinstance(path, bytes):
                    path = os.fsdecode(path)
            if path is None or opener is not None or not os.path.abspath(path).startswith(self.root):
                return orig(file, mode, buffering, encoding, errors, newline, closefd, opener)
            text = "b" not in mode
            m = mode.replace("b", "").replace("t", "").replace("U", "")
            self.op("open", path)
            raw = SimRaw(self, path, m)
            if buffering == 0:
                return raw
            f = io.BufferedRandom(raw) if "+" in m else (
                io.BufferedReader(raw) if m == "r" else io.BufferedWriter(raw))
            if not text:
                return f
            return io.TextIOWrapper(f, encoding, errors, newline)

        return sim_open

    def __enter__(self):
        self._orig = builtins.open, io.open
        builtins.open = self._open(self._orig[0])
        io.open = builtins.open
        return self

    def __exit__(self, *exc):
        builtins.open, io.open = self._orig

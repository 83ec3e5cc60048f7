"""Fault-injecting file layer.

Files are real files in a scratch directory that belongs to one run.  Code under
test reaches them through builtins.open / io.open / os.*; those are replaced by
versions that (1) refuse and record any change outside the scratch directory,
(2) are scheduling points with optional latency, and (3) inject the faults of the
plan: failing open/read/write/close/unlink/rename/copy, short writes, full disk.
The simulator's own files (written by simulated programs and by oracles) go
through the untouched primitives.
"""
import builtins
import errno
import io
import os
import shutil
from . import core

REAL = {n: getattr(os, n) for n in ("unlink", "remove", "rename", "replace", "rmdir", "mkdir", "open",
                                    "truncate", "symlink", "link", "stat", "listdir", "write", "read", "close", "chmod")}
REAL_OPEN = io.open
REAL_RMTREE = shutil.rmtree

SCRATCH = None        # absolute path with trailing slash
FAULTS = None         # DiskFaults
LATENCY = 0.0
ESCAPES = []


def write_file(path, data, mode="wb"):
    fd = REAL["open"](path, os.O_WRONLY | os.O_CREAT | (os.O_TRUNC if "w" in mode else os.O_APPEND), 0o644)
    try:
        off = 0
        while off < len(data):
            off += REAL["write"](fd, data[off:])
    finally:
        REAL["close"](fd)


def read_file(path):
    with REAL_OPEN(path, "rb") as f:
        return f.read()


def tree(root=None):
    """{relative path: bytes} of the scratch directory."""
    root = root or SCRATCH
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = read_file(p)
    return out


def names(root):
    out = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            out.add(os.path.relpath(os.path.join(d, f), root))
    return out


class DiskFaults:
    """rules: list of {op, match, nth, kind, count}.  op counts are per rule."""

    def __init__(self, rules):
        self.rules = [dict(r) for r in rules]
        for r in self.rules:
            r["seen"] = 0
            r["fired"] = 0
        self.enabled = True
        self.log = []

    def check(self, op, path):
        """Returns the rule that fires for this operation, or None."""
        if not self.enabled:
            return None
        hit = None
        for r in self.rules:
            if r["op"] != op or (r.get("match") and r["match"] not in path):
                continue
            if r.get("thread"):
                s = core.ACTIVE
                if not s or not s.cur or r["thread"] not in s.cur.name:
                    continue
            r["seen"] += 1
            if r["seen"] >= r["nth"] and r["fired"] < r.get("count", 1):
                hit = hit or r
        if hit is not None:
            hit["fired"] += 1
            self.log.append((op, path))
            s = core.ACTIVE
            if s is not None:
                s.fault("disk_%s_%s" % (op, hit["kind"]))
                s.rec("disk_fault", op=op, kind=hit["kind"], path=os.path.basename(path))
        return hit

    @property
    def fired(self):
        return sum(r["fired"] for r in self.rules)


ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "ENOENT": errno.ENOENT, "EBUSY": errno.EBUSY}


def _raise(rule, path):
    no = ERR.get(rule["kind"], errno.EIO)
    raise OSError(no, os.strerror(no), path)


def _inside(path):
    if SCRATCH is None:
        return True
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return True
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return (p + "/").startswith(SCRATCH) or p.startswith("/dev/")


def _simulated():
    s = core.ACTIVE
    return s if s is not None and s.current() is not None else None


def _escape(op, path):
    s = core.ACTIVE
    if s is not None:
        s.rec("escape", op=op, path=os.fspath(path))
    ESCAPES.append((op, os.fspath(path)))
    raise PermissionError(errno.EPERM, "outside the scratch directory", os.fspath(path))


def _point(s):
    if s.current().killed:
        raise core.SimKilled()
    s.yield_now()
    if LATENCY:
        s.sleep(LATENCY)


class FaultFileIO(io.FileIO):
    def __init__(self, file, mode, closefd=True, opener=None):
        self._fpath = os.path.abspath(os.fspath(file))
        self._broken = False
        super().__init__(file, mode, closefd, opener)

    def write(self, b):
        s = _simulated()
        if s is None:
            if core.IN_CHILD and core.ACTIVE is None:
                return super().write(b)
            return super().write(b)
        _point(s)
        f = FAULTS
        if f is not None:
            r = f.check("write", self._fpath)
            if r is not None:
                m = memoryview(b).cast("B")
                if r["kind"] == "short":
                    n = max(1, len(m) // 2)
                    return super().write(m[:n])
                if r.get("torn") and len(m):
                    super().write(m[:int(len(m) * r["torn"])])
                _raise(r, self._fpath)
        return super().write(b)

    def _rd(self):
        s = _simulated()
        if s is not None:
            _point(s)
            if FAULTS is not None:
                r = FAULTS.check("read", self._fpath)
                if r is not None:
                    if r["kind"] == "short":
                        return r
                    _raise(r, self._fpath)
        return None

    def readinto(self, b):
        r = self._rd()
        if r is not None:
            m = memoryview(b).cast("B")
            n = max(1, len(m) // 2)
            return super().readinto(m[:n])
        return super().readinto(b)

    def read(self, n=-1):
        r = self._rd()
        if r is not None and n is not None and n > 1:
            n = n // 2
        return super().read(n)

    def readall(self):
        self._rd()
        return super().readall()

    def close(self):
        if self.closed:
            return
        s = _simulated()
        r = None
        if s is not None and FAULTS is not None and (self.writable() if not self.closed else False):
            r = FAULTS.check("close", self._fpath)
        super().close()
        if r is not None:
            _raise(r, self._fpath)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) or SCRATCH is None or not core.IN_CHILD:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    writing = any(c in mode for c in "wax+")
    if not _inside(path):
        if writing:
            _escape("open-write", path)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    s = _simulated()
    if s is None:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    _point(s)
    if FAULTS is not None:
        r = FAULTS.check("open" if writing else "openr", os.path.abspath(path))
        if r is not None:
            _raise(r, path)
    if writing:
        s.rec("fopen", path=os.path.relpath(os.path.abspath(path), SCRATCH), mode=mode)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if not binary:
        encoding = io.text_encoding(encoding)
    raw = FaultFileIO(path, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        size = (BUFFER or io.DEFAULT_BUFFER_SIZE) if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        if BUFFER and writing:
            text._CHUNK_SIZE = BUFFER
        return text
    except BaseException:
        raw.close()
        raise


def _wrap1(op, real):
    def f(path, *a, **kw):
        if not core.IN_CHILD or SCRATCH is None or kw.get("dir_fd") is not None:
            return real(path, *a, **kw)
        if not _inside(path):
            _escape(op, path)
        s = _simulated()
        if s is not None:
            _point(s)
            if FAULTS is not None:
                r = FAULTS.check(op, os.path.abspath(os.fspath(path)))
                if r is not None:
                    _raise(r, os.fspath(path))
            s.rec(op, path=os.path.relpath(os.path.abspath(os.fspath(path)), SCRATCH))
        return real(path, *a, **kw)
    return f


def _wrap2(op, real):
    def f(src, dst, *a, **kw):
        if not core.IN_CHILD or SCRATCH is None:
            return real(src, dst, *a, **kw)
        for p in (src, dst):
            if not _inside(p):
                _escape(op, p)
        s = _simulated()
        if s is not None:
            _point(s)
            if FAULTS is not None:
                r = FAULTS.check(op, os.path.abspath(os.fspath(src)))
                if r is not None:
                    _raise(r, os.fspath(src))
            s.rec(op, path=os.path.relpath(os.path.abspath(os.fspath(src)), SCRATCH),
                  to=os.path.relpath(os.path.abspath(os.fspath(dst)), SCRATCH))
        return real(src, dst, *a, **kw)
    return f


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if core.IN_CHILD and SCRATCH is not None and dir_fd is None and \
            flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and not _inside(path):
        _escape("os.open", path)
    return REAL["open"](path, flags, mode, dir_fd=dir_fd)


def _rmtree(path, *a, **kw):
    if core.IN_CHILD and SCRATCH is not None and not _inside(path):
        _escape("rmtree", path)
    return REAL_RMTREE(path, *a, **kw)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.unlink = _wrap1("unlink", REAL["unlink"])
    os.remove = _wrap1("unlink", REAL["remove"])
    os.rmdir = _wrap1("rmdir", REAL["rmdir"])
    os.mkdir = _wrap1("mkdir", REAL["mkdir"])
    os.truncate = _wrap1("truncate", REAL["truncate"])
    os.chmod = _wrap1("chmod", REAL["chmod"])
    os.rename = _wrap2("rename", REAL["rename"])
    os.replace = _wrap2("rename", REAL["replace"])
    os.symlink = _wrap2("symlink", REAL["symlink"])
    os.link = _wrap2("link", REAL["link"])
    os.open = _os_open
    shutil.rmtree = _rmtree
    shutil._USE_CP_SENDFILE = False     # copy through read/write, where faults apply


BUFFER = None       # size of the buffers of files opened for the simulation (None: as usual)


def configure(scratch, rules=(), latency=0.0):
    global SCRATCH, FAULTS, LATENCY, BUFFER
    SCRATCH = os.path.abspath(scratch).rstrip("/") + "/"
    FAULTS = DiskFaults(rules) if rules else None
    LATENCY = latency
    BUFFER = None
    ESCAPES.clear()

"""Everything nondeterministic that soil can reach, behind seams under our control.

`install()` has to run before soil is imported.
"""
import builtins
import errno
import io
import os
import random
import shutil
import sqlite3
import sys
import time as _time

REAL_TIME = _time.time
REAL_MONOTONIC = _time.monotonic
REAL_OPEN = builtins.open
REAL_GETCTIME = os.path.getctime
REAL_URANDOM = os.urandom
REAL_CONNECT = sqlite3.connect
REAL_OS = {n: getattr(os, n) for n in ("mkdir", "remove", "unlink", "rename", "replace", "rmdir", "truncate", "link", "symlink", "open")}


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The code under test used up its budget without making progress."""


# ---------------------------------------------------------------- clock

class Clock:
    """Virtual wall clock. `mode` tells how it moves every time it is read."""

    def __init__(self):
        self.reset()

    def reset(self, now=1700000000.0, mode="tick", rng=None):
        self.now = now
        self.mode = mode
        self.rng = rng or random.Random(0)
        self.reads = 0
        self.jumps = 0
        self.ctimes = None

    def read(self):
        self.reads += 1
        if self.mode == "tick":
            self.now += 0.001
        elif self.mode == "jump":
            if self.rng.random() < 0.3:
                self.jumps += 1
                self.now = max(1.0, self.now + self.rng.choice([-86400.0, -3600.0, -1.0, 0.0, 1.0, 3600.0, 31536000.0]))
            else:
                self.now += 0.001
        elif self.mode == "back":
            self.jumps += 1
            self.now = max(1.0, self.now - 1.5)
        # frozen: stays
        return self.now

    def getctime(self, path):
        real = REAL_GETCTIME(path)  # raises if it does not exist
        if self.ctimes is None:
            return real
        return float(self.ctimes)


CLOCK = Clock()


# ---------------------------------------------------------------- faults

class Disk:
    """Fault plan for the storage operations on one scratch directory.

    Every operation that changes the disk is counted; the plan says what happens
    at the n-th one: an error, a torn or short write, or a crash.
    """

    def __init__(self):
        self.root = None
        self.reset()

    def reset(self, root=None, plan=None, readonly=False, on_crash=None, spill=False):
        self.spill = spill          # big transactions: the database file changes before the commit
        self.root = os.path.realpath(root) if root else None
        self.plan = plan            # {"kind":..., "at": n, "target": "sql"|"file"|"dir"|"any"}
        self.readonly = readonly
        self.on_crash = on_crash
        self.counts = {}
        self.log = []
        self.fired = None
        self.enabled = True

    def covers(self, path):
        if self.root is None or not self.enabled:
            return False
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        return path == self.root or path.startswith(self.root + os.sep)

    def op(self, target, name, path=None, data=None):
        """Register an operation. Returns None, or the number of bytes to write in a torn write."""
        self.counts[target] = self.counts.get(target, 0) + 1
        self.counts["any"] = self.counts.get("any", 0) + 1
        if path is not None:
            rel = os.path.relpath(os.path.abspath(path), self.root)
        else:
            rel = None
        self.log.append((target, name, rel))
        if self.readonly:
            self.fired = self.fired or ("readonly", target, name)
            raise OSError(errno.EROFS, "Read-only file system (injected)", str(path))
        p = self.plan
        if not p or self.fired and not p.get("sticky"):
            return None
        hit = p["target"] in (target, "any") and (
            self.counts[p["target"]] == p["at"] or (self.fired and p.get("sticky")))
        if p["kind"] == "short":
            # The first write from that point on
            hit = p["target"] in (target, "any") and self.counts[p["target"]] >= p["at"] and data is not None and len(data) > 1
        if not hit:
            return None
        self.fired = (p["kind"], target, name)
        if p["kind"] == "crash":
            torn = None
            if data is not None and name == "write" and p.get("torn") is not None:
                torn = int(len(data) * p["torn"])
            return ("crash", torn)
        if p["kind"] == "short":
            return ("short", max(1, len(data) // 2))
        if target == "sql":
            text = {"enospc": "database or disk is full", "eio": "disk I/O error", "locked": "database is locked"}[p["kind"]]
            raise sqlite3.OperationalError(text + " (injected)")
        code = {"enospc": errno.ENOSPC, "eio": errno.EIO, "locked": errno.EACCES}[p["kind"]]
        error = OSError(code, os.strerror(code) + " (injected)", str(path) if path else None)
        if data is not None and name == "write" and p.get("torn"):
            # Part of it gets written
            return ("error", int(len(data) * p["torn"]), error)
        raise error

    def crash(self):
        if self.on_crash:
            self.enabled = False
            try:
                self.on_crash()
            finally:
                self.enabled = True
        raise SimCrash("simulated crash")


DISK = Disk()


class SimRaw(io.FileIO):
    """A real file whose writes go through the fault plan."""

    def write(self, data):
        act = DISK.op("file", "write", self.name, bytes(data))
        if act:
            kind, n = act[:2]
            if kind == "error":
                if n:
                    super().write(bytes(data)[:n])
                raise act[2]
            if kind == "crash":
                if n:
                    super().write(bytes(data)[:n])
                DISK.crash()
            if kind == "short":
                return super().write(bytes(data)[:n])
        return super().write(data)

    def truncate(self, size=None):
        act = DISK.op("file", "truncate", self.name)
        if act and act[0] == "crash":
            DISK.crash()
        return super().truncate(size)


class SimRawRead(io.FileIO):
    """A real file whose reads go through the fault plan."""

    def readinto(self, b):
        DISK.counts["read"] = DISK.counts.get("read", 0) + 1
        p = DISK.plan
        if p and p["target"] == "read":
            if p["kind"] == "short-read":
                DISK.fired = ("short-read", "read", "read")
                with memoryview(b) as m:
                    return super().readinto(m[:max(1, len(b) // 3)])
            if DISK.counts["read"] == p["at"]:
                DISK.fired = ("eio", "read", "read")
                raise OSError(errno.EIO, os.strerror(errno.EIO) + " (injected)", str(self.name))
        return super().readinto(b)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if DISK.plan and DISK.plan["target"] == "read" and not isinstance(file, int) and DISK.covers(file) and not any(c in mode for c in "wax+") and buffering != 0:
        buf = io.BufferedReader(SimRawRead(file, "r", closefd, opener), 64)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)
    if isinstance(file, int) or not DISK.covers(file) or not any(c in mode for c in "wax+"):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    act = DISK.op("file", "open:" + mode, file)
    if act and act[0] == "crash":
        DISK.crash()
    binary = "b" in mode
    raw = SimRaw(file, mode.replace("b", "").replace("t", ""), closefd, opener)
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    else:
        buf = io.BufferedWriter(raw)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline)
    text.mode = mode
    return text


def _wrap_os(name):
    real = REAL_OS[name]

    def wrapper(path, *args, **kwargs):
        if name == "open":
            flags = args[0] if args else kwargs.get("flags", 0)
            if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) or not DISK.covers(path):
                return real(path, *args, **kwargs)
        elif isinstance(path, int) or not (DISK.covers(path) or (args and DISK.covers(args[0]))):
            return real(path, *args, **kwargs)
        act = DISK.op("dir", name, path)
        if act and act[0] == "crash":
            DISK.crash()
        return real(path, *args, **kwargs)

    wrapper.__name__ = name
    return wrapper


# ---------------------------------------------------------------- database

class SimCursor(sqlite3.Cursor):
    def _op(self, sql):
        conn = self.connection
        if getattr(conn, "sim_path", None) is None or not DISK.enabled:
            return
        verb = sql.lstrip().split(None, 1)[0].upper() if sql.strip() else ""
        if verb in ("SELECT", "PRAGMA"):
            return
        act = DISK.op("sql", verb, conn.sim_path)
        if act and act[0] == "crash":
            DISK.crash()

    def execute(self, sql, *args):
        self._op(sql)
        return super().execute(sql, *args)

    def executemany(self, sql, *args):
        self._op(sql)
        return super().executemany(sql, *args)

    def executescript(self, sql, *args):
        self._op(sql)
        return super().executescript(sql, *args)


class SimConnection(sqlite3.Connection):
    sim_path = None

    def cursor(self, *args, **kwargs):
        return super().cursor(SimCursor)

    def execute(self, sql, *args):
        return self.cursor().execute(sql, *args)

    def executemany(self, sql, *args):
        return self.cursor().executemany(sql, *args)

    def commit(self):
        if self.sim_path is not None and DISK.enabled and self.in_transaction:
            act = DISK.op("sql", "COMMIT", self.sim_path)
            if act and act[0] == "crash":
                if (DISK.plan or {}).get("after"):
                    super().commit()
                DISK.crash()
        return super().commit()


def sim_connect(database, *args, **kwargs):
    if not DISK.covers(database):
        return REAL_CONNECT(database, *args, **kwargs)
    if not os.path.exists(database):
        act = DISK.op("file", "open:sqlite", database)
        if act and act[0] == "crash":
            DISK.crash()
    if DISK.plan and DISK.plan["target"] == "sql" and not DISK.readonly:
        act = DISK.op("sql", "CONNECT", database)
        if act and act[0] == "crash":
            DISK.crash()
    kwargs["factory"] = SimConnection
    conn = REAL_CONNECT(database, *args, **kwargs)
    if DISK.spill:
        conn.execute("PRAGMA cache_size=1")
    conn.sim_path = os.path.abspath(database)
    return conn


# ---------------------------------------------------------------- budget

class Budget:
    """Counts the backward jumps executed by soil itself (not by our agents or the libraries)."""
    TOOL = 4

    def __init__(self):
        self.left = None
        self.used = 0
        self.root = None

    def install(self, root):
        self.root = os.path.realpath(root) + os.sep
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "dst")
        mon.register_callback(self.TOOL, mon.events.JUMP, self._jump)
        mon.set_events(self.TOOL, mon.events.JUMP)

    def _jump(self, code, src, dst):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        if dst < src and self.left is not None:
            self.used += 1
            if self.used > self.left:
                self.left = None
                raise SimHang(f"more than {self.used - 1} loop iterations in {os.path.basename(code.co_filename)}:{code.co_name} without finishing")

    def start(self, n):
        self.left = n
        self.used = 0

    def stop(self):
        self.left = None
        return self.used


BUDGET = Budget()


# ---------------------------------------------------------------- install

_urandom_rng = random.Random(0)


def sim_urandom(n):
    return _urandom_rng.randbytes(n)


def seed_everything(seed):
    """Seed every generator outside the model."""
    import numpy
    _urandom_rng.seed(f"urandom-{seed}")
    random.seed(f"global-{seed}")
    numpy.random.seed(int.from_bytes(str(seed).encode()[-4:], "little"))


def install():
    _time.time = CLOCK.read
    builtins.open = sim_open
    io.open = sim_open
    os.path.getctime = CLOCK.getctime
    os.urandom = sim_urandom
    for name in REAL_OS:
        setattr(os, name, _wrap_os(name))
    shutil._USE_CP_SENDFILE = False
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect

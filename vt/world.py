"""Nondeterministic stand-ins for dsari's environment.

The same World serves symbolic runs and concrete replays: it replaces attributes of
the os / time / random / ... modules with wrappers that act only for calls made by
dsari code while a world is active, and pass every other call through.  Nothing the
code under test does reaches the real file system, processes or signals.
"""
import builtins
import collections
import copy
import datetime as _dt
import errno
import gzip as _gzip
import io
import json
import logging
import os
import pwd
import random
import signal
import sqlite3
import stat as _stat
import sys
import tempfile
import time
import uuid

from . import core, rt
from .core import EngineSignal, PathEnd, Unsupported
from .sym import (
    And,
    EPOCH,
    Or,
    REAL_DATETIME,
    REAL_TIMEDELTA,
    SDict,
    Sym,
    SymBool,
    SymBytes,
    SymDT,
    SymInt,
    SymRaw,
    SymReal,
    SymStr,
    SymTD,
    contains_sym,
    local_offset,
    mkstr,
    round_half_even_z,
    td_us,
    td_us_of,
    tz_off,
    us_of,
    zint,
    zreal,
)

try:
    import z3
except ImportError:
    z3 = None

ROOT = "/vworld"
WORLD = None
NULL = object()


class ExecDone(EngineSignal):
    """The child reached exec."""


class StopSim(EngineSignal):
    """The harness ended the simulated daemon."""


class Crash(EngineSignal):
    """Simulated crash (power loss / SIGKILL) of the process."""


class NullLogger:
    def __init__(self, w=None):
        self.w = w

    def _log(self, level, msg="", *a, **k):
        w = WORLD
        if w is not None:
            w.logs.append((level, msg))
            w.event("log", level=level, msg=msg)

    def debug(self, *a, **k):
        self._log("debug", *a, **k)

    def info(self, *a, **k):
        self._log("info", *a, **k)

    def warning(self, *a, **k):
        self._log("warning", *a, **k)

    warn = warning

    def error(self, *a, **k):
        self._log("error", *a, **k)

    critical = error

    def exception(self, *a, **k):
        self._log("error", *a, **k)

    def log(self, lvl, *a, **k):
        self._log("info", *a, **k)

    def setLevel(self, *a):
        pass

    def addHandler(self, *a):
        pass

    def removeHandler(self, *a):
        pass

    def isEnabledFor(self, *a):
        return True

    def getChild(self, *a):
        return self

    handlers = ()
    level = 10
    propagate = True


class Node:
    """A virtual file: raw text/bytes, or a structure rendered on demand."""

    def __init__(self, data, mtime=None, fmt=None, error=None):
        self.data = data  # str, bytes, or a structure when fmt is 'json' / 'yaml'
        self.mtime = mtime
        self.fmt = fmt
        self.error = error

    def text(self):
        if self.fmt == "json":
            return json.dumps(self.data)
        if self.fmt == "yaml":
            import yaml

            return yaml.safe_dump(plain(self.data))
        return self.data


def plain(v, memo=None):
    """Plain dicts and lists; what is shared stays shared."""
    memo = {} if memo is None else memo
    if isinstance(v, dict):
        if id(v) not in memo:
            memo[id(v)] = v, {k: plain(x, memo) for k, x in v.items()}
        return memo[id(v)][1]
    if isinstance(v, (list, tuple)):
        if id(v) not in memo:
            memo[id(v)] = v, [plain(x, memo) for x in v]
        return memo[id(v)][1]
    return v


class Packed(Sym):
    """A compressed file: the contents of its streams."""

    __slots__ = ("fmt", "streams")
    _real = bytes

    def __init__(self, fmt, streams):
        self.fmt, self.streams = fmt, streams

    @property
    def __class__(self):
        return bytes

    def __bool__(self):
        return bool(self.streams)

    def unpack(self, fmt):
        if fmt not in (self.fmt, None):
            raise OSError("not a {} file".format(fmt))
        out = SymRaw([])
        for x in self.streams:
            out = out + x
        return out

    __hash__ = Sym.__hash__


def packed(ctx, fmt, streams):
    """File contents: each of the streams compressed (bytes or SymRaw)."""
    if ctx.sym:
        return Packed(fmt, [x if type(x) is SymRaw else SymRaw(x) for x in streams])
    import gzip
    import lzma

    f = {"gz": gzip.compress, "xz": lzma.compress}[fmt]
    return b"".join(f(x) for x in streams)


class SymDecompressor:
    """lzma.LZMADecompressor: one stream."""

    def __init__(self):
        self.eof = False
        self.unused_data = b""
        self.needs_input = True

    def decompress(self, data, *a):
        if self.eof:
            raise EOFError("Already at end of stream")
        if not data:
            return b""
        if data.fmt != "xz":
            import lzma

            raise lzma.LZMAError("Input format not supported by decoder")
        self.eof = True
        self.needs_input = False
        self.unused_data = Packed("xz", data.streams[1:]) if data.streams[1:] else b""
        return data.streams[0]


class VFile:
    """An open virtual file holding a structure with symbolic leaves."""

    def __init__(self, node, path):
        self.node = node
        self.name = path
        self.closed = False

    def vt_parse(self, fmt):
        if self.node.fmt != fmt and not (fmt == "yaml" and self.node.fmt == "json"):
            if (self.node.fmt, fmt) == ("yaml", "json"):
                # some text of these values is no JSON
                raise json.JSONDecodeError("Expecting value", "", 0)
            raise Unsupported("parsing a symbolic {} file as {}".format(self.node.fmt, fmt))
        return rt.sd(copy.deepcopy(self.node.data))

    def parse(self, fmt):
        return self.vt_parse(fmt)

    def read(self, *a):
        return SymStr([("o", ("vtext", self))])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def fileno(self):
        return 77


class WFile:
    """A virtual file opened for writing."""

    def __init__(self, world, path, mode, fd):
        self.world = world
        self.path = path
        self.parts = []
        self.binary = "b" in mode
        self.mode = mode
        self.fd = fd
        self.closed = False

    def write(self, s):
        self.world.hook("write", self.path)
        self.parts.append(s)
        self.flush()
        return len(s) if not isinstance(s, Sym) else 0

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        if not self.world.has(self.path):
            return
        if any(isinstance(p, Sym) for p in self.parts):
            ps = []
            for p in self.parts:
                if type(p) is SymBytes:
                    p = p.s
                elif isinstance(p, bytes):
                    p = p.decode("utf-8", "surrogateescape")
                ps += SymStr.pieces(p)
            self.world.fs[self.path].data = mkstr(ps)
        elif self.binary:
            self.world.fs[self.path].data = b"".join(self.parts)
        else:
            self.world.fs[self.path].data = "".join(self.parts)

    def fileno(self):
        return self.fd

    def close(self):
        if not self.closed:
            self.flush()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Child:
    def __init__(self, pid, run, start):
        self.pid = pid
        self.run = run
        self.job_name = run.job.name if run is not None else None
        self.run_id = run.id if run is not None else None
        self.group = None
        if run is not None and getattr(run, "concurrency_group", None) is not None:
            self.group = run.concurrency_group.name
        self.start = start
        self.alive = True
        self.status = None
        self.signals = []
        self.term = self.killed = None


PROGRESS = {"fork", "remove", "reap", "kill", "signal", "cron", "makedirs"}
Event = collections.namedtuple("Event", "kind time data")


class World:
    def __init__(self, ctx, free_clock=False, start_us=None, crc=None):
        self.ctx = ctx
        ctx.world = self
        self.free_clock = free_clock
        self.fs = {}  # path -> Node
        self.dirs = {"/", ROOT, ROOT + "/etc", ROOT + "/data", "/dev"}
        self.logs = []
        self.events = []
        self.monitors = []
        self.children = {}
        self.next_pid = 1000
        self.handlers = {}
        self.fork_mode = "parent"
        self.in_child = False
        self.exec_record = None
        self.uuids = 0
        self.crcmap = crc or {}
        self.on_sleep = None
        self.on_nap = None  # called while sleeping: a signal handler may run (and the sleep goes on)
        self.on_wait = None
        self.on_fs = None
        self.list_order = None
        self.on_db = None
        self.on_fork = None
        self.crons = None
        self.fixed_order = False  # random.shuffle leaves the order alone
        self.cron_fixed = None  # occurrences at the multiples of this many microseconds
        self.cron_daily = False  # schedules at one time of the day are answered exactly
        self.cron_answers = None  # number of answers after which schedules have no more occurrences
        self.cron_asked = 0
        self.cron_far = False  # occurrences are more than a minute apart
        self.next_fd = 50
        self.dup2s = []
        self.cwd = "/"
        self.popen = None
        self.pgid = None
        self.stores = {}
        self.real_dbs = {}
        self.env = None
        self.user = ("vtuser", "/home/vtuser")
        self.closed_ranges = []
        self.zones = {}  # time zone name -> (offset us[, instant us, later offset us])
        self.child_sigs = {}
        self.dead = False
        self.reads = 0
        self.now = start_us if start_us is not None else ctx.dt_us("t0")
        activate(self)
        ctx.cleanups.append(self.close)

    def close(self):
        deactivate(self)
        for c, path in self.real_dbs.values():
            try:
                c.close()
            except Exception:
                pass
        self.real_dbs = {}

    # -- events ------------------------------------------------------------
    def event(self, kind, **data):
        if kind in PROGRESS:
            self.reads = 0
        e = Event(kind, self.now, data)
        self.events.append(e)
        for m in self.monitors:
            m(e)
        return e

    def evs(self, kind):
        return [e for e in self.events if e.kind == kind]

    # -- clock -------------------------------------------------------------
    def advance(self, us):
        self.now = self.now + us

    def tick(self):
        if self.free_clock:
            self.advance(self.ctx.int("dt_read", 0, 3_600_000_000))
        self.reads += 1
        if self.reads > 60 and not self.in_child:
            # time passes even while the code neither waits nor makes progress
            if self.reads > 400:
                raise core.Found("the daemon keeps going without ever waiting")
            self.advance(50)
        return self.now

    def now_dt(self, tz=None):
        us = self.tick()
        return dt_of(self.ctx, us, tz)

    # -- schedules ---------------------------------------------------------
    def cron_next(self, expr, start, first=True):
        """Next instant strictly after start, per the croniter contract."""
        if self.crons is None:
            self.crons = {}
        if type(expr) is SymStr:
            # texts of the same form are one schedule
            key = ("sym",) + tuple((k, v if isinstance(v, str) else str(v)) for k, v in expr.p)
        else:
            key = expr
        hist = self.crons.setdefault(key, [])
        s_us = us_of(start) if isinstance(start, REAL_DATETIME) else start
        for ps, pn in hist:
            # decided by a fork, so that a replay takes the same answers
            if ps is s_us or self.ctx.decide(ps == s_us):
                return pn
        if self.cron_fixed:
            return (s_us // self.cron_fixed + 1) * self.cron_fixed
        # whole seconds, strictly after start
        n = self.ctx.int("cron_at_{}".format(len(self.crons)), 10**9, 5 * 10**9)
        nxt = n * 1_000_000
        self.ctx.assume(And(nxt > s_us, nxt <= s_us + 400 * 86400 * 10**6))
        ctx = self.ctx
        if self.cron_far:
            ctx.assume(nxt > s_us + 62 * 10**6)
        for ps, pn in hist:
            # a fixed set of instants: consistent with earlier answers
            ctx.assume(
                And(
                    Or(s_us < ps, Or(s_us < pn, nxt > pn)),
                    Or(s_us < ps, s_us >= pn, nxt == pn),
                    Or(s_us >= ps, Or(nxt <= ps, nxt == pn)),
                )
            )
        hist.append((s_us, nxt))
        return nxt

    def cron_ended(self):
        """Whether the schedule has no further occurrence."""
        if self.cron_answers is None:
            return False
        self.cron_asked += 1
        return self.ctx.decide(self.cron_answers < self.cron_asked)

    def cron_exact(self, cur, expr, real):
        f = expr.split()
        if len(f) != 6 or f[2:5] != ["*"] * 3 or not all(x.isdigit() for x in (f[0], f[1], f[5])):
            return None
        if not isinstance(cur, Sym):
            return real(expr, cur).get_next(REAL_DATETIME)
        at = (int(f[1]) * 3600 + int(f[0]) * 60 + int(f[5])) * 10**6
        day = 86400 * 10**6
        nxt = cur.w - cur.w % day + at
        nxt = z3.If(nxt > cur.w, nxt, nxt + day)
        tz = cur.tzinfo
        return SymDT(nxt, None if tz is None else tz_off(tz, wall=nxt), cur.tz)

    # -- processes -----------------------------------------------------------
    def find_run(self):
        f = sys._getframe(1)
        seen = 0
        while f is not None and seen < 40:
            if (f.f_globals.get("__name__") or "").startswith("dsari"):
                for v in list(f.f_locals.values()):
                    if type(v).__name__ == "Run" and hasattr(v, "job") and hasattr(v, "id"):
                        return v
            f = f.f_back
            seen += 1
        return None

    def fork(self):
        run = self.find_run()
        mode = self.fork_mode
        if mode == "choice":
            mode = "child" if self.ctx.decide(self.ctx.bool("fork_child")) else "parent"
        if mode == "child":
            self.in_child = True
            self.event("fork", pid=0, run=run, child=None)
            return 0
        pid = self.next_pid
        self.next_pid += 1
        c = Child(pid, run, self.now)
        self.children[pid] = c
        self.event("fork", pid=pid, run=run, child=c)
        if self.on_fork:
            self.on_fork(c)
        return pid

    def live(self):
        return [c for c in self.children.values() if c.alive]

    def reap(self, c, status):
        c.alive = False
        c.status = status
        self.event("reap", child=c, pid=c.pid, status=status)
        return (c.pid, status, None)

    def wait4(self, pid, options):
        live = self.live()
        self.reads = 0
        self.event("wait")
        if not live:
            self.event("wait_echild")
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if self.on_wait is None:
            raise Unsupported("wait4 without a scenario")
        c = self.on_wait(live)
        if c is None:
            self.event("wait0")
            if not (options & os.WNOHANG):
                raise PathEnd("blocking wait4 with no exited child")
            return (0, 0, None)
        child, status = c
        return self.reap(child, status)

    def kill(self, pid, sig):
        if isinstance(pid, Sym):
            raise Unsupported("symbolic pid")
        c = self.children.get(pid)
        self.event("kill", pid=pid, sig=int(sig), child=c)
        if c is None or not c.alive:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        c.signals.append((int(sig), self.now))

    def deliver(self, sig):
        h = self.handlers.get(int(sig))
        self.event("signal", sig=int(sig))
        if h is None or h == signal.SIG_DFL:
            raise Unsupported("signal {} delivered with no handler".format(sig))
        if h == signal.SIG_IGN:
            return
        h(int(sig), None)

    def sleep(self, d):
        if self.ctx.sym and not isinstance(d, (int, float)):
            raise TypeError("an integer is required")
        neg = d < 0
        if bool(neg):
            raise ValueError("sleep length must be non-negative")
        self.reads = 0
        self.event("sleep", d=d, us=us_of_seconds(d))
        us = us_of_seconds(d)
        if self.on_nap:
            self.on_nap()
        self.advance(us)
        if self.on_sleep:
            self.on_sleep(d)

    # -- virtual file system ---------------------------------------------------
    def put(self, path, data, mtime=None, fmt=None):
        d = os.path.dirname(path)
        while d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)
        self.fs[path] = Node(data, mtime=mtime if mtime is not None else self.now, fmt=fmt)

    def norm(self, p):
        if isinstance(p, Sym):
            r = p.conc() if type(p) is SymStr else None
            if r is None:
                raise Unsupported("symbolic path {!r}".format(p))
            p = r
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            p = os.path.join(self.cwd, p)
        return os.path.normpath(p)

    def has(self, path):
        return path in self.fs

    def hook(self, op, path):
        if self.on_fs is not None:
            self.on_fs(op, path)

    def exists(self, p):
        if p == "":
            return False
        p = self.norm(p)
        self.hook("exists", p)
        return p in self.fs or p in self.dirs

    lexists = exists

    def isfile(self, p):
        p = self.norm(p)
        self.hook("exists", p)
        return p in self.fs

    def isdir(self, p):
        if p == "":
            return False
        p = self.norm(p)
        return p in self.dirs

    def access(self, p, mode, **k):
        if not self.exists(p):
            return False
        n = self.fs.get(self.norm(p))
        return not (n is not None and n.error == "open" and mode & os.R_OK)

    def scandir(self, p="."):
        w = self

        class Entry:
            def __init__(self, d, name):
                self.name, self.path = name, os.path.join(d, name)

            def is_file(self, **k):
                return w.isfile(self.path)

            def is_dir(self, **k):
                return w.isdir(self.path)

            def is_symlink(self):
                return False

            def stat(self, **k):
                return w.stat(self.path)

            def __fspath__(self):
                return self.path

        class It(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        return It(Entry(p, n) for n in self.listdir(p))

    def listdir(self, p="."):
        p = self.norm(p)
        if p not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        names = {
            os.path.basename(q)
            for q in list(self.fs) + list(self.dirs)
            if q != "/" and os.path.dirname(q) == p
        }
        order = sorted(names)
        if self.list_order is not None:
            return self.list_order(order)
        return self.ctx.permute("listdir", order) if self.ctx and len(order) <= 4 else order

    def remove(self, p):
        p = self.norm(p)
        self.hook("remove", p)
        if p not in self.fs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        node = self.fs[p]
        if node.error == "remove":
            raise PermissionError(errno.EACCES, "Permission denied", p)
        del self.fs[p]
        self.event("remove", path=p, node=node)

    def rename(self, a, b):
        a, b = self.norm(a), self.norm(b)
        self.hook("rename", a)
        if a not in self.fs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        self.fs[b] = self.fs.pop(a)
        self.event("rename", path=a, to=b)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        if p == "":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        p = self.norm(p)
        self.hook("makedirs", p)
        if p in self.dirs:
            if exist_ok:
                return
            raise FileExistsError(errno.EEXIST, "File exists", p)
        q = p
        while q not in self.dirs:
            self.dirs.add(q)
            q = os.path.dirname(q)
        self.event("makedirs", path=p)

    def mkdir(self, p, mode=0o777):
        p = self.norm(p)
        if p in self.dirs:
            raise FileExistsError(errno.EEXIST, "File exists", p)
        self.makedirs(p)

    def getmtime(self, p):
        p = self.norm(p)
        self.hook("getmtime", p)
        if p in self.fs:
            m = self.fs[p].mtime
            if isinstance(m, Sym):
                return SymReal(z3.ToReal(zint(m)) / 1_000_000)
            return m / 1e6
        if p in self.dirs:
            return 1e9
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)

    def stat(self, p, **k):
        m = self.getmtime(p)

        class St:
            st_mtime = m
            st_mode = (_stat.S_IFREG if self.norm(p) in self.fs else _stat.S_IFDIR) | 0o644

        return St()

    def open(self, p, mode="r", *a, **k):
        if isinstance(p, int):
            raise Unsupported("open of a file descriptor")
        p = self.norm(p)
        self.hook("open", p)
        if p == "/dev/null":
            self.next_fd += 1
            f = io.StringIO("") if "b" not in mode else io.BytesIO(b"")
            fd = self.next_fd
            f = FdFile(f, fd, p, mode)
            self.event("open", path=p, mode=mode, fd=fd)
            return f
        self.next_fd += 1
        fd = self.next_fd
        if "w" in mode or "a" in mode or "x" in mode:
            if os.path.dirname(p) not in self.dirs:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
            if "x" in mode and p in self.fs:
                raise FileExistsError(errno.EEXIST, "File exists", p)
            old = self.fs[p].text() if "a" in mode and p in self.fs else None
            self.fs[p] = Node("" if "b" not in mode else b"", mtime=self.now)
            f = WFile(self, p, mode, fd)
            if old is not None:
                f.parts.append(old)
                f.flush()
            self.event("open", path=p, mode=mode, fd=fd)
            return f
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", p)
        if p not in self.fs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        node = self.fs[p]
        self.event("open", path=p, mode=mode, fd=fd)
        if node.error == "open":
            raise PermissionError(errno.EACCES, "Permission denied", p)
        if isinstance(node.data, Exception):
            raise node.data
        if node.fmt and self.ctx.sym and rt._deep_sym(node.data):
            return VFile(node, p)
        t = node.text()
        if type(t) in (SymStr, SymBytes, SymRaw, Packed):
            return SymTextFile(t, "b" in mode, *([] if "b" in mode else [k.get("encoding"), k.get("errors"), k.get("newline")]))
        if "b" in mode:
            f = io.BytesIO(t if isinstance(t, bytes) else t.encode("utf-8"))
        else:
            if isinstance(t, bytes):
                enc = k.get("encoding") or "utf-8"
                f = io.TextIOWrapper(io.BytesIO(t), encoding=enc, errors=k.get("errors"))
                return f
            f = io.StringIO(t)
        return FdFile(f, fd, p, mode)

    # -- misc ----------------------------------------------------------------
    def crc(self, data):
        if type(data) is bytes:
            name = data.decode("utf-8", "surrogateescape")
            if name in self.crcmap:
                return self.crcmap[name]
        return None

    def uuid4(self):
        self.uuids += 1
        return uuid.UUID(int=(0x40008000000000000000 << 48) | self.uuids)

    def connect(self, name, *a, **k):
        name = self.norm(name) if name != ":memory:" else name
        if self.on_db:
            self.on_db("connect", name)
        if self.ctx.sym:
            from .minisql import Conn, Store

            st = self.stores.setdefault(name, Store())
            c = Conn(st, hook=lambda w, d: self.db_hook(w, d))
            if "isolation_level" in k:
                c.isolation_level = k["isolation_level"]
            return c
        if name not in self.real_dbs:
            tmp = tempfile.mkdtemp(prefix="vtdb")
            path = os.path.join(tmp, "db.sqlite3")

            def rm():
                for s in ("", "-journal", "-wal", "-shm"):
                    if os.path.exists(path + s):
                        os.unlink(path + s)
                os.rmdir(tmp)

            self.ctx.cleanups.insert(0, rm)
            self.real_dbs[name] = (sqlite3_connect_real(path), path)
            self.real_dbs[name][0].close()
        path = self.real_dbs[name][1]
        c = sqlite3_connect_real(path, factory=HookConn, **k)
        c.vt_world = self
        self.real_conns = getattr(self, "real_conns", [])
        self.real_conns.append(c)
        self.ctx.cleanups.append(lambda: c.vt_close())
        return c

    def db_hook(self, what, detail):
        if self.on_db:
            self.on_db(what, detail)
        if what in ("execute", "commit"):
            self.event("db", what=what, sql=detail)

    def table(self, name, path=None):
        """Committed rows of a table, as dicts."""
        path = path or ROOT + "/data/dsari.sqlite3"
        if self.ctx.sym:
            st = self.stores.get(path)
            if st is None or name not in st.tables:
                return []
            return [dict(r) for r in st.tables[name][1]]
        if path not in self.real_dbs:
            return []
        c = sqlite3_connect_real(self.real_dbs[path][1])
        c.row_factory = sqlite3.Row
        try:
            return [dict(r) for r in c.execute("select * from " + name)]
        except sqlite3.OperationalError:
            return []
        finally:
            c.close()

    def seed_table(self, name, rows, path=None, ddl=None):
        """Insert committed rows (dicts) as pre-existing history."""
        path = path or ROOT + "/data/dsari.sqlite3"
        conn = self.connect(path)
        cur = conn.cursor()
        cur.execute(ddl or DDL[name])
        for r in rows:
            cols = list(r)
            cur.execute(
                "INSERT INTO {} ({}) VALUES ({})".format(
                    name, ", ".join(cols), ", ".join("?" for _ in cols)
                ),
                [r[c] for c in cols],
            )
        conn.commit()
        conn.close()


DDL = {
    "runs": """CREATE TABLE runs (job_name text, run_id text, schedule_time real,
        start_time real, stop_time real, exit_code integer, trigger_type text,
        trigger_data text, run_data text)""",
    "runs_running": """CREATE TABLE runs_running (job_name text, run_id text,
        schedule_time real, start_time real, trigger_type text, trigger_data text,
        run_data text)""",
}


class FdFile:
    def __init__(self, f, fd, name, mode):
        self._f = f
        self._fd = fd
        self.name = name
        self.mode = mode

    def fileno(self):
        return self._fd

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()
        return False

    def __iter__(self):
        return iter(self._f)


class SymTextFile:
    def __init__(self, t, binary, encoding=None, errors=None, newline=None):
        self.t = t.s if type(t) is SymBytes else t
        self.binary = binary
        self.how = (encoding or "utf-8", errors or "strict")
        self.newline = newline

    def read(self, *a):
        t = self.t
        if type(t) in (SymRaw, Packed):
            if a and a[0] is not None and not (isinstance(a[0], int) and a[0] < 0):
                raise Unsupported("reading a part of a file")
            if self.binary:
                return t
            if type(t) is Packed:
                raise Unsupported("a compressed file read as text")
            t = t.decode(*self.how)
            if self.newline is None:
                t = SymStr(SymStr.pieces(t)).replace("\r\n", "\n")
                t = SymStr(SymStr.pieces(t)).replace("\r", "\n")
            return t
        return SymBytes(t) if self.binary else t

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def fileno(self):
        return 78


class HookCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        self.connection.vt_world.db_hook("execute", sql)
        return super().execute(sql, *a)


class HookConn(sqlite3.Connection):
    vt_world = None

    def cursor(self, *a, **k):
        return super().cursor(HookCursor)

    def commit(self):
        self.vt_world.db_hook("commit", None)
        super().commit()
        self.vt_world.db_hook("committed", None)

    def vt_close(self):
        try:
            super().close()
        except Exception:
            pass


sqlite3_connect_real = sqlite3.connect


def us_of_seconds(d):
    if type(d) is SymReal:
        return SymInt(round_half_even_z(d.e * 1_000_000))
    if isinstance(d, Sym):
        return d * 1_000_000
    return int(round(d * 1_000_000))


class Zone(_dt.tzinfo):
    """A time zone with one change of its offset."""

    def __init__(self, off, trans=None, off2=None):
        self.off, self.trans, self.off2 = off, trans, off2

    def _off(self, us, wall, fold=0):
        if self.trans is None:
            return self.off
        if us - ((min(self.off, self.off2) if fold else self.off) if wall else 0) < self.trans:
            return self.off
        return self.off2

    def utcoffset(self, dt):
        if dt is None:
            return None
        us = td_us(dt.replace(tzinfo=None) - EPOCH.replace(tzinfo=None))
        return REAL_TIMEDELTA(microseconds=self._off(us, True, dt.fold))

    def dst(self, dt):
        return REAL_TIMEDELTA(0)

    def tzname(self, dt):
        return "VTZ"

    def fromutc(self, dt):
        us = td_us(dt.replace(tzinfo=None) - EPOCH.replace(tzinfo=None))
        off = self._off(us, False)
        r = dt + REAL_TIMEDELTA(microseconds=off)
        return r.replace(fold=int(self._off(us + off, True) != off))

    def __deepcopy__(self, memo):
        return self


def iso_text(ctx, wall_us, off_us=None):
    """ISO 8601 text of a wall clock time, with its offset or without."""
    if ctx.sym:
        d = SymDT(zint(wall_us), None if off_us is None else zint(off_us))
        return SymStr([("dt", d)])
    d = EPOCH.replace(tzinfo=None) + REAL_TIMEDELTA(microseconds=wall_us)
    if off_us is not None:
        d = d.replace(tzinfo=_dt.timezone(REAL_TIMEDELTA(microseconds=off_us)))
    return d.isoformat()


def _fake_gettz(real):
    def f(name=None):
        w = active()
        if isinstance(name, Sym):
            if type(name) is SymStr:
                raise Unsupported("symbolic time zone name")
            return real(name._real(1 if name else 0))
        if w is None or not isinstance(name, str) or name not in w.zones:
            return real(name) if name is not None else real()
        z = w.zones[name]
        if isinstance(z, tuple):
            if w.ctx.sym:
                from .sym import SymTZ

                z = SymTZ(zint(z[0]), name, None if len(z) == 1 else (zint(z[1]), zint(z[2])))
            else:
                z = Zone(*z)
            w.zones[name] = z
        return z

    return f


def _fake_dparse(real):
    def f(text, *a, **k):
        if type(text) is SymStr:
            if len(text.p) == 1 and text.p[0][0] == "dt":
                return text.p[0][1]
            raise Unsupported("parsing symbolic text as a time")
        if isinstance(text, Sym):
            raise TypeError("Parser must be a string or character stream")
        return real(text, *a, **k)

    return f


def dt_of(ctx, us, tz=None):
    """datetime.datetime.now-style value at instant us."""
    if isinstance(us, Sym) or isinstance(ctx.local_off, Sym):
        if tz is None:
            return SymDT(zint(us) + local_offset(inst=zint(us)), None)
        off = tz_off(tz, inst=zint(us))
        return SymDT(zint(us) + off, off, tz)
    d = EPOCH + REAL_TIMEDELTA(microseconds=us)
    if tz is None:
        return d.astimezone().replace(tzinfo=None)
    return d.astimezone(tz)


# ---------------------------------------------------------------------------
# patching


PASS = {"glob", "pathlib", "posixpath", "genericpath", "shutil", "os", "contextlib", "fnmatch", "gzip"}


def active(depth=2):
    w = WORLD
    if w is None:
        return None
    f = sys._getframe(depth)
    n = f.f_globals.get("__name__") or ""
    if n in PASS:
        # library code acting for its caller
        while f is not None and (f.f_globals.get("__name__") or "") in PASS:
            f = f.f_back
        n = f.f_globals.get("__name__") or "" if f is not None else ""
    if n == "vt.rt" or n == "dsari" or n.startswith("dsari."):
        return w
    return None


_REAL = {}


def _patch(mod, name, make):
    real = getattr(mod, name)
    _REAL[(mod.__name__, name)] = real
    w = make(real)
    try:
        w.__name__ = name
    except Exception:
        pass
    setattr(mod, name, w)
    # names already in the lifting table keep working through the wrapper
    if real in rt.TABLE:
        rt.TABLE[w] = rt.TABLE[real]


def _w(method):
    def make(real):
        def wrapper(*a, **k):
            w = active()
            if w is None:
                return real(*a, **k)
            return getattr(w, method)(*a, **k)

        return wrapper

    return make


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL_DATETIME)

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL_DATETIME)


class FakeDatetime(REAL_DATETIME, metaclass=_DTMeta):
    _vt_real = REAL_DATETIME

    def __new__(cls, *a, **k):
        return REAL_DATETIME(*a, **k)

    @classmethod
    def now(cls, tz=None):
        if WORLD is None:
            return REAL_DATETIME.now(tz)
        return WORLD.now_dt(tz)

    @classmethod
    def utcnow(cls):
        if WORLD is None:
            return REAL_DATETIME.utcnow()
        return WORLD.now_dt(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if isinstance(t, Sym):
            if type(t) not in (SymInt, SymReal):
                raise TypeError("'{}' object cannot be interpreted as an integer".format(t._real.__name__))
            us = SymInt(round_half_even_z(zreal(t) * 1_000_000))
            c = core.CTX
            lo, hi = -62135596800, 253402300799
            if not c.decide(And(us > (lo + 86400) * 10**6, us < (hi - 86400) * 10**6)):
                raise ValueError("year is out of range")
            return dt_of(c, us, tz)
        return REAL_DATETIME.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        return cls.fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None)


# methods reached through the class object
for _n in ("fromisoformat", "strptime", "combine", "fromordinal"):
    setattr(FakeDatetime, _n, getattr(REAL_DATETIME, _n))


def _fake_time(real):
    def f():
        w = active()
        if w is None:
            return real()
        us = w.tick()
        return SymReal(z3.ToReal(us.e) / 1_000_000) if isinstance(us, Sym) else us / 1e6

    return f


def _fake_getLogger(real):
    def f(*a):
        w = active()
        return NullLogger(w) if w is not None else real(*a)

    return f


def _fake_shuffle(real):
    def f(x, *a):
        w = active()
        if w is None:
            return real(x, *a)
        if not w.fixed_order:
            x[:] = w.ctx.permute("shuffle", x)

    return f


def _fake_sample(real):
    def f(x, k, *a, **kw):
        w = active()
        if w is None:
            return real(x, k, *a, **kw)
        return w.ctx.permute("shuffle", list(x))[:k]

    return f


def _fake_choice(real):
    def f(x):
        w = active()
        if w is None:
            return real(x)
        return w.ctx.choice("rchoice", list(x))

    return f


def _fake_randint(real):
    def f(a, b):
        w = active()
        if w is None:
            return real(a, b)
        return _inside(w.ctx.int("randint", a, b), a, b)

    return f


def _inside(v, a, b):
    """A given value (of a replay) brought into the asked range."""
    return a + (v - a) % (b - a + 1) if isinstance(v, int) and not a <= v <= b else v


def _fake_randrange(real):
    def f(a, b=None):
        w = active()
        if w is None:
            return real(a, b)
        lo, hi = 0 if b is None else a, (a if b is None else b) - 1
        return _inside(w.ctx.int("randint", lo, hi), lo, hi)

    return f


def _fake_random(real):
    def f():
        w = active()
        if w is None:
            return real()
        r = w.ctx.real("random", 0, 1)
        w.ctx.assume(r < 1)
        return r

    return f


def _fake_exec(real, path=True):
    def f(file, args, env=None):
        w = active()
        if w is None:
            return real(file, args, env) if env is not None else real(file, args)
        w.exec_record = (file, list(args), env)
        w.exec_path = path
        w.event("exec", file=file, args=list(args), env=env)
        raise ExecDone("exec")

    return f


def _fake_exit(real):
    def f(code):
        w = active()
        if w is None:
            return real(code)
        w.event("_exit", code=code)
        raise ExecDone("_exit")

    return f


def _fake_signal(real):
    def f(signum, handler):
        w = active()
        if w is None:
            return real(signum, handler)
        if w.in_child:
            w.child_sigs[int(signum)] = handler
            return None
        old = w.handlers.get(int(signum), signal.SIG_DFL)
        w.handlers[int(signum)] = handler
        w.event("sethandler", sig=int(signum))
        return old

    return f


def _rec(kind, ret=None):
    def make(real):
        def f(*a, **k):
            w = active()
            if w is None:
                return real(*a, **k)
            w.event(kind, args=a)
            return ret

        return f

    return make


def _fake_chdir(real):
    def f(p):
        w = active()
        if w is None:
            return real(p)
        q = w.norm(p)
        if q not in w.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", q)
        w.cwd = q
        w.event("chdir", path=q)

    return f


def _fake_getpid(real):
    def f():
        w = active()
        if w is None:
            return real()
        return 4242 if w.in_child else 1

    return f


def _fake_open(real):
    def f(*a, **k):
        w = active()
        if w is None:
            return real(*a, **k)
        return w.open(*a, **k)

    return f


def _fake_gzopen(real, fmt="gz"):
    def f(path, mode="rb", *a, **k):
        w = active()
        if w is None:
            return real(path, mode, *a, **k)
        if "r" in mode:
            if isinstance(path, SymTextFile):
                f2 = path
            elif hasattr(path, "read"):
                return real(path, mode, *a, **k)
            else:
                f2 = w.open(path, "rb")
            if isinstance(f2, SymTextFile):
                if type(f2.t) is Packed:
                    x = f2.t.unpack(fmt)
                    return SymTextFile(x, "t" not in mode, k.get("encoding"), k.get("errors"), k.get("newline"))
                return f2
            return real(f2._f, mode, *a, **k)
        f2 = w.open(path, "wb")
        f2.gz = True
        return f2

    return f


def _symbolic():
    w = active(3)
    return w is not None and w.ctx.sym


def _fake_popen(real):
    def f(cmd, *a, **k):
        w = active()
        if w is None:
            return real(cmd, *a, **k)
        if w.popen is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", cmd[0])
        return w.popen(cmd, *a, **k)

    return f


def _fake_check_output(real):
    def f(cmd, *a, **k):
        if active() is None:
            return real(cmd, *a, **k)
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", cmd[0])

    return f


def _fake_pwnam(real):
    def f(uid):
        w = active()
        if w is None:
            return real(uid)
        if w.user is None:
            raise KeyError("getpwuid(): uid not found: {}".format(uid))
        return pwd.struct_passwd((w.user[0], "x", uid, uid, "", w.user[1], "/bin/sh"))

    return f


def _fake_connect(real):
    def f(*a, **k):
        w = WORLD
        if w is None or not active():
            return real(*a, **k)
        return w.connect(*a, **k)

    return f


def _fake_uuid4(real):
    def f():
        w = active()
        return w.uuid4() if w is not None else real()

    return f


def _fake_waitpid(real):
    def f(pid, options):
        w = active()
        if w is None:
            return real(pid, options)
        return w.wait4(pid, options)[:2]

    return f


def _waitstatus(real, fn):
    def f(st):
        if not isinstance(st, Sym):
            return real(st)
        return fn(st)

    return f


PATCHED = False


def install():
    """Patch the environment. Must run before dsari is imported."""
    global PATCHED
    if PATCHED:
        return
    PATCHED = True
    import croniter  # noqa: F401  (real modules first)
    import dateutil.parser
    import dateutil.rrule
    import dateutil.tz
    import lzma  # noqa: F401
    import yaml

    _patch(dateutil.tz, "gettz", _fake_gettz)
    _patch(dateutil.parser, "parse", _fake_dparse)
    _patch(dateutil.parser, "isoparse", _fake_dparse)
    for n in ("exists", "isfile", "isdir", "getmtime", "lexists"):
        _patch(os.path, n, _w(n))
    for n in ("remove", "makedirs", "mkdir", "listdir", "scandir", "access", "rename", "stat", "fork", "kill", "wait4"):
        _patch(os, n, _w(n))
    _patch(os, "unlink", _w("remove"))
    _patch(os, "replace", _w("rename"))
    _patch(os, "waitpid", _fake_waitpid)
    _patch(os, "execvpe", _fake_exec)
    _patch(os, "execvp", _fake_exec)
    _patch(os, "execve", lambda real: _fake_exec(real, False))
    _patch(os, "execv", lambda real: _fake_exec(real, False))
    _patch(os, "_exit", _fake_exit)
    _patch(os, "setpgid", _rec("setpgid"))
    _patch(os, "setpgrp", _rec("setpgid"))
    _patch(os, "setsid", _rec("setpgid"))
    _patch(os, "dup2", _rec("dup2"))
    _patch(os, "closerange", _rec("closerange"))
    _patch(os, "close", _rec("close"))
    _patch(os, "chdir", _fake_chdir)
    _patch(os, "getpid", _fake_getpid)
    _patch(os, "killpg", _w("kill"))
    _patch(pwd, "getpwuid", _fake_pwnam)
    _patch(time, "sleep", _w("sleep"))
    _patch(time, "time", _fake_time)
    _patch(time, "monotonic", _fake_time)
    _patch(logging, "getLogger", _fake_getLogger)
    _patch(random, "shuffle", _fake_shuffle)
    _patch(random, "sample", _fake_sample)
    _patch(random, "choice", _fake_choice)
    _patch(random, "randint", _fake_randint)
    _patch(random, "randrange", _fake_randrange)
    _patch(random, "random", _fake_random)
    _patch(signal, "signal", _fake_signal)
    _patch(uuid, "uuid4", _fake_uuid4)
    _patch(builtins, "open", _fake_open)
    _patch(io, "open", _fake_open)
    import gzip

    _patch(gzip, "open", _fake_gzopen)
    _patch(lzma, "open", lambda real: _fake_gzopen(real, "xz"))
    _patch(gzip, "decompress", lambda real: lambda d, *a, **k: d.unpack("gz") if type(d) is Packed else real(d, *a, **k))
    _patch(lzma, "decompress", lambda real: lambda d, *a, **k: d.unpack("xz") if type(d) is Packed else real(d, *a, **k))
    _patch(lzma, "LZMADecompressor", lambda real: lambda *a, **k: SymDecompressor() if _symbolic() else real(*a, **k))
    _patch(sqlite3, "connect", _fake_connect)
    import subprocess

    _patch(subprocess, "Popen", _fake_popen)
    _patch(subprocess, "check_output", _fake_check_output)
    # wait status decoding of symbolic statuses (POSIX/Linux encoding)
    _patch(os, "WIFSIGNALED", lambda r: _waitstatus(r, lambda s: And((s & 0x7F) != 0, (s & 0x7F) != 0x7F)))
    _patch(os, "WTERMSIG", lambda r: _waitstatus(r, lambda s: s & 0x7F))
    _patch(os, "WIFEXITED", lambda r: _waitstatus(r, lambda s: (s & 0x7F) == 0))
    _patch(os, "WEXITSTATUS", lambda r: _waitstatus(r, lambda s: (s >> 8) & 0xFF))
    _patch(os, "WCOREDUMP", lambda r: _waitstatus(r, lambda s: (s & 0x80) != 0))

    def w2e(s):
        if bool((s & 0x7F) == 0):
            return (s >> 8) & 0xFF
        return -(s & 0x7F)

    _patch(os, "waitstatus_to_exitcode", lambda r: _waitstatus(r, w2e))
    _dt.datetime = FakeDatetime
    rt.TABLE[FakeDatetime] = _mkdt
    rt.TABLE[FakeDatetime.fromtimestamp] = FakeDatetime.fromtimestamp
    # structured file parsing of virtual files
    real_yaml = yaml.safe_load

    def safe_load(f):
        p = getattr(f, "vt_parse", None)
        if p is not None:
            return p("yaml")
        if type(f) is SymStr and rt.json_key(f) is None:
            v = f.p[0][1][1] if f.p and f.p[0][0] == "o" and f.p[0][1][0] == "vtext" else None
            if v is not None:
                return v.parse("yaml")
            v = rt.yaml_text(f)
            if v is not None:
                return v
        if isinstance(f, FdFile):
            f = f._f
        r = real_yaml(f)
        return rt.sd(r) if WORLD is not None and WORLD.ctx.sym else r

    yaml.safe_load = safe_load
    rt.TABLE[yaml.safe_dump] = rt.yaml_dump(yaml.safe_dump)
    try:
        import termcolor
    except ImportError:
        pass
    else:
        rt.TABLE[termcolor.colored] = rt.colored(termcolor.colored)


def _mkdt(*a, **k):
    if any(isinstance(x, Sym) for x in list(a) + list(k.values())):
        raise Unsupported("datetime() with symbolic components")
    return REAL_DATETIME(*a, **k)


def activate(w):
    global WORLD
    WORLD = w


def deactivate(w):
    global WORLD
    if WORLD is w:
        WORLD = None


def install_cron_stub():
    """Replace croniter.croniter by its contract (before dsari is imported)."""
    import croniter

    real = croniter.croniter

    class StubCroniter:
        RANGES = real.RANGES
        VT_STUB = True

        def __init__(self, expr_format, start_time=None, ret_type=float, **k):
            self.expr = expr_format
            w = WORLD
            if isinstance(expr_format, str) and type(expr_format) is not SymStr:
                real(expr_format.replace("SYM", "0"))  # raise what croniter raises
            if start_time is None:
                start_time = w.now_dt()
            w.event("cron_new", expr=expr_format)
            self.start = start_time
            self.cur = start_time
            self.ret_type = ret_type

        def get_next(self, ret_type=None, start_time=None, **k):
            w = WORLD
            if start_time is not None:
                self.cur = start_time
            if not isinstance(self.cur, REAL_DATETIME):
                raise Unsupported("croniter with a non-datetime start")
            if ret_type is None:
                ret_type = self.ret_type
            if not (isinstance(ret_type, type) and issubclass(ret_type, (float, REAL_DATETIME))):
                raise TypeError("Invalid ret_type, only 'float' or 'datetime' is acceptable.")
            expr = self.expr
            r = w.cron_exact(self.cur, expr, real) if w.cron_daily else None
            if r is None:
                us = w.cron_next(expr, self.cur)
                # a schedule which names years ends
                if w.cron_ended():
                    raise croniter.CroniterBadDateError("failed to find next date")
                r = dt_of(w.ctx, us, self.cur.tzinfo)
            w.event("cron", expr=expr, start=self.cur, next=us_of(r))
            self.cur = r
            if not issubclass(ret_type, REAL_DATETIME):
                return r.timestamp()
            return r

        next = get_next

        def get_current(self, ret_type=None):
            return self.cur

        def __iter__(self):
            return self

        def __next__(self):
            return self.get_next()

    croniter.croniter = StubCroniter
    install_rrule_stub()
    return real


BYS = ("byweekday", "bymonth", "bymonthday", "byyearday", "byweekno", "bysetpos", "byeaster", "byhour", "byminute", "bysecond")


def install_rrule_stub():
    """dateutil.rrule.rrulestr by its contract: syntax and start as the real one,
    plain periods exactly, other rules as some later whole second or the end."""
    import dateutil.rrule as rr

    real = rr.rrulestr
    PERIOD = {rr.DAILY: 86400, rr.HOURLY: 3600, rr.MINUTELY: 60, rr.SECONDLY: 1, rr.WEEKLY: 7 * 86400}

    class StubRule:
        def __init__(self, w, text, dtstart, k):
            aware = dtstart.tzinfo is not None
            ref = REAL_DATETIME(2000, 1, 1, tzinfo=_dt.timezone.utc if aware else None)
            self.text, self.dtstart = text, dtstart
            global WORLD
            try:
                # its parser looks at the clock
                WORLD = None
                r = real(text, dtstart=ref, **k)
            finally:
                WORLD = w
            self.until = getattr(r, "_until", None)
            self.period = None
            o = getattr(r, "_original_rule", None)
            if o is not None and not any(o.get(b) for b in BYS) and not getattr(r, "_count", None):
                if r._freq in PERIOD:
                    self.period = PERIOD[r._freq] * r._interval * 10**6
            self.real = real(text, dtstart=dtstart, **k) if not isinstance(dtstart, Sym) else None

        def after(self, dt, inc=False):
            w = WORLD
            if (dt.tzinfo is None) != (self.dtstart.tzinfo is None):
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            if self.period is None:
                us = w.cron_next(self.text, dt)
                if w.cron_ended():
                    r = None
                else:
                    r = dt_of(w.ctx, us, dt.tzinfo)
            elif self.real is not None and not isinstance(dt, Sym):
                r = self.real.after(dt, inc)
                if r is not None:
                    # fold as the wall clock arithmetic of dateutil leaves it
                    pass
            else:
                d0, dt = SymDT.of(self.dtstart), SymDT.of(dt)
                tz = d0.tz if d0.tz is not None else d0.tzinfo
                base = d0.w - d0.w % 1_000_000
                wall = dt.w if d0.off is None or tz is dt.tz else dt.inst + tz_off(tz, inst=dt.inst)
                k = (wall - base) / self.period + 1
                k = z3.If(k > 0, k, 0)
                if inc:
                    raise Unsupported("after(inc=True)")
                nxt = base + k * self.period
                off = None if d0.off is None else tz_off(tz, wall=nxt)
                r = SymDT(nxt, off, d0.tz)
            if r is not None and self.until is not None and w.ctx.decide(r > self.until):
                r = None
            w.event("rrule", expr=self.text, start=dt, dtstart=self.dtstart, next=None if r is None else us_of(r))
            return r

    def f(text, **k):
        w = active()
        if w is None or not isinstance(k.get("dtstart"), REAL_DATETIME):
            return real(text, **k)
        return StubRule(w, text, k.pop("dtstart"), k)

    rr.rrulestr = f

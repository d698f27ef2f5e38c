"""Symbolic execution core: path exploration contexts (symbolic and concrete).

A *harness* is a function taking a context.  In symbolic mode (SymCtx) the real
dsari code, loaded through vt.instrument from /repo's current source, is executed
with symbolic values; every branch on a symbolic condition asks z3 which sides are
feasible and forks, and every ctx.prove() asks z3 whether the negation is
satisfiable on the current path.  In concrete mode (ConcCtx) the same harness runs
against the uninstrumented modules with the values of one z3 model.
"""
import ctypes
import fractions
import gc
import json
import mmap
import os
import struct
import time as _time
import traceback
import zlib

try:
    import z3
except ImportError:  # concrete replays do not need the solver
    z3 = None


class EngineSignal(BaseException):
    """Engine control flow; never to be swallowed by code under test."""


class Unsupported(EngineSignal):
    pass


class PathEnd(EngineSignal):
    """The path is infeasible, assumed away or cut at a bound."""


class Found(EngineSignal):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Limit(EngineSignal):
    pass


CTX = None
FORKSITES = bool(os.environ.get("VT_SITES"))
TIER = "quick"


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


T_LO = 10**15  # 2001-09-09 in microseconds since the epoch
T_HI = 4 * 10**15  # 2096-10-02


class BaseCtx:
    def __init__(self):
        self.counts = {}
        self.covers = set()
        self.observations = []
        self.cleanups = []
        self.local_off = 0
        self.date_range = False  # sums of times are checked to be within years 1 to 9999
        self.local_trans = None  # (instant, later offset) of the local zone
        self.clock = None

    def uniq(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "{}#{}".format(name, n)

    def cover(self, label):
        self.covers.add(label)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        idx = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if self.decide(idx == i):
                return options[i]
        return options[-1]

    def crc_name(self, name="crc", base="job", lo=0, hi=2**32 - 1):
        """(job name, its CRC-32): a name with an arbitrary check sum."""
        v = self.int(name, lo, hi)
        if self.sym:
            self.world.crcmap[base] = v
            return base, v
        return name_of_crc(v), v

    def permute(self, name, lst):
        rest = list(lst)
        out = []
        while len(rest) > 1:
            i = self.choice(name, range(len(rest)))
            out.append(rest.pop(i))
        return out + rest

    def finish(self):
        for f in reversed(self.cleanups):
            f()
        self.cleanups = []


def name_of_crc(v):
    """A valid job name with the given CRC-32 (the check sum is affine in the bits)."""
    n = 44
    base = bytearray(b"A" * n)
    c0 = zlib.crc32(bytes(base))
    rows = []
    for i in range(n):
        b = bytearray(base)
        b[i] = ord("A") ^ 3 if i % 2 else ord("A") ^ 4  # B or E
        rows.append((zlib.crc32(bytes(b)) ^ c0, 1 << i))
    want, used = v ^ c0, 0
    basis = {}
    for r, m in rows:
        while r:
            h = r.bit_length() - 1
            if h not in basis:
                basis[h] = (r, m)
                break
            r, m = r ^ basis[h][0], m ^ basis[h][1]
    for h in range(31, -1, -1):
        if want >> h & 1:
            r, m = basis[h]
            want, used = want ^ r, used ^ m
    for i in range(n):
        if used >> i & 1:
            base[i] ^= 3 if i % 2 else 4
    assert zlib.crc32(bytes(base)) == v
    return base.decode()


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        self.decisions = []
        self.decided = {}  # ast id -> (condition, outcome); the condition is kept alive
        self.solver = z3.Solver()
        self.solver.set("timeout", eng.query_timeout_ms)
        self.inputs = []  # (name, kind, z3 expr)
        self.model = None
        self.fp = False

    # -- solver ---------------------------------------------------------
    def check(self, *assumptions):
        t = _time.perf_counter()
        r = self.solver.check(*assumptions)
        self.eng.solver_time += _time.perf_counter() - t
        self.eng.queries += 1
        if r == z3.unknown:
            self.eng.unknowns += 1
            if os.environ.get("VT_DEBUG"):
                import traceback

                with open("/tmp/vt_unknown.txt", "a") as f:
                    f.write("".join(traceback.format_stack(limit=9)) + self.solver.sexpr()[-3000:] + "\n\n=====\n")
            raise Unsupported("solver answered unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def add(self, e):
        self.solver.add(e)
        if self.model is not None and not z3.is_true(
            self.model.eval(e, model_completion=True)
        ):
            self.model = None

    def constrain(self, e):
        """Add a constraint known to be satisfiable by construction."""
        self.add(e)

    def decide(self, cond):
        from .sym import zbool

        if type(cond) is bool:
            return cond
        e = z3.simplify(zbool(cond))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        known = self.decided.get(e.get_id())
        if known is not None:
            return known[1]
        t = f = None
        if self.model is not None:
            mv = self.model.eval(e, model_completion=True)
            if z3.is_true(mv):
                t = True
            elif z3.is_false(mv):
                f = True
        mt = mf = self.model
        if t is None:
            t = self.check(e)
            if t:
                mt = self.solver.model()
        if f is None:
            f = self.check(z3.Not(e))
            if f:
                mf = self.solver.model()
        if not t and not f:
            raise PathEnd("infeasible")
        self.eng.branches += 1
        v = bool(t)
        if t and f:
            self.eng.tick()
            if FORKSITES:
                self.eng.site(e)
            v = not self.eng.fork()
        self.decisions.append(v)
        self.decided[e.get_id()] = (e, v)
        if t and f:
            self.solver.add(e if v else z3.Not(e))
        self.model = mt if v else mf
        self.eng.tick()
        return v

    def possible(self, cond):
        """Some inputs of the current path satisfy cond."""
        from .sym import zbool

        return bool(cond) if type(cond) is bool else self.check(zbool(cond))

    def assume(self, cond):
        from .sym import zbool

        if type(cond) is bool:
            if not cond:
                raise PathEnd("assume")
            return
        e = z3.simplify(zbool(cond))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd("assume")
        if self.model is not None and z3.is_true(
            self.model.eval(e, model_completion=True)
        ):
            self.solver.add(e)
            return
        self.solver.add(e)
        self.model = None
        if not self.check():
            raise PathEnd("assume")
        self.model = self.solver.model()

    def prove(self, cond, label, detail=""):
        from .sym import zbool

        self.covers.add("prove:" + label)
        self.eng.labels.add(label)
        self.eng.obligations += 1
        if type(cond) is bool:
            if cond:
                self.eng.discharged += 1
                self.eng.trivial += 1
                return
            if self.model is None and not self.check():
                raise PathEnd("infeasible")
            if self.model is None:
                self.model = self.solver.model()
            raise Found(label, detail)
        e = z3.simplify(zbool(cond))
        if z3.is_true(e):
            self.eng.discharged += 1
            self.eng.trivial += 1
            return
        if self.check(z3.Not(e)):
            self.model = self.solver.model()
            raise Found(label, detail)
        self.eng.discharged += 1
        self.solver.add(e)

    # -- inputs ---------------------------------------------------------
    def _input(self, name, kind, e):
        self.inputs.append((name, kind, e))

    def int(self, name, lo=None, hi=None):
        from .sym import SymInt

        name = self.uniq(name)
        e = z3.Int(name)
        self._input(name, "int", e)
        if lo is not None:
            self.add(e >= (lo.e if isinstance(lo, SymInt) else lo))
        if hi is not None:
            self.add(e <= (hi.e if isinstance(hi, SymInt) else hi))
        return SymInt(e)

    def bool(self, name):
        from .sym import SymBool

        name = self.uniq(name)
        e = z3.Bool(name)
        self._input(name, "bool", e)
        return SymBool(e)

    def real(self, name, lo=None, hi=None):
        from .sym import SymReal

        name = self.uniq(name)
        e = z3.Real(name)
        self._input(name, "real", e)
        if lo is not None:
            self.add(e >= z3.RealVal(str(fractions.Fraction(lo))))
        if hi is not None:
            self.add(e <= z3.RealVal(str(fractions.Fraction(hi))))
        return SymReal(e)

    def str(self, name, maxlen=8, minlen=0, chars=None):
        """A symbolic string; chars is a regex character class body such as 'a-z0-9'."""
        from .sym import SymStr, re_to_z3

        name = self.uniq(name)
        e = z3.String(name)
        self._input(name, "str", e)
        self.add(z3.Length(e) <= maxlen)
        if minlen:
            self.add(z3.Length(e) >= minlen)
        if chars is not None:
            self.add(z3.InRe(e, re_to_z3("(?s:[{}]*)".format(chars))))
        return SymStr.var(e)

    def dt_us(self, name, lo=T_LO, hi=T_HI):
        return self.int(name, lo, hi)

    def dt(self, name, lo=T_LO, hi=T_HI):
        """An aware datetime (in the local zone) at an arbitrary instant."""
        from .sym import SymDT, zint

        us = self.int(name, lo, hi)
        from .sym import local_offset

        off = local_offset(inst=us.e)
        return SymDT(us.e + off, off)

    def dt_from_us(self, us):
        from .sym import SymDT, zint

        from .sym import local_offset

        off = local_offset(inst=zint(us))
        return SymDT(zint(us) + off, off)

    def td(self, name, lo=0, hi=10**12):
        from .sym import SymTD

        return SymTD(self.int(name, lo, hi).e)

    def set_local_offset(self, name="local_off_min", lo=-14 * 60, hi=14 * 60):
        self.local_off = self.int(name, lo, hi) * 60_000_000
        self._names("LCL")

    def _names(self, name):
        """The local zone's names, as a replay has them."""
        old = _time.tzname
        _time.tzname = (name, name)
        self.cleanups.append(lambda: setattr(_time, "tzname", old))

    def set_local_zone(self, trans, off1, off2):
        """Local zone whose offset changes at an instant (offsets in minutes)."""
        self.local_off = off1 * 60_000_000
        self.local_trans = (trans, off2 * 60_000_000)

    def observe(self, name, value):
        self.observations.append((name, value))

    def eq_real(self, a, b, tol=1e-6):
        return a == b

    # -- models -----------------------------------------------------------
    def model_values(self, model):
        out = {}
        for name, kind, e in self.inputs:
            v = model.eval(e, model_completion=True)
            if kind == "int":
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = z3.is_true(v)
            elif kind == "real":
                fr = v.as_fraction()
                out[name] = "{}/{}".format(fr.numerator, fr.denominator)
            else:
                out[name] = zstr_value(v)
        return out


def zstr_value(v):
    s = v.as_string()
    # z3 escapes non-printable characters as \u{XX}
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


class ConcCtx(BaseCtx):
    sym = False
    fp = False

    def __init__(self, values):
        super().__init__()
        self.values = values
        self.missing = []

    def _get(self, name, default):
        name = self.uniq(name)
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def decide(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise PathEnd("assume")

    def constrain(self, cond):
        pass

    def prove(self, cond, label, detail=""):
        self.covers.add("prove:" + label)
        if not cond:
            raise Found(label, detail)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def bool(self, name):
        return self._get(name, False)

    def real(self, name, lo=None, hi=None):
        v = self._get(name, lo if lo is not None else 0)
        return float(fractions.Fraction(v))

    def str(self, name, maxlen=8, minlen=0, chars=None):
        return self._get(name, "")

    def dt_us(self, name, lo=T_LO, hi=T_HI):
        return self.int(name, lo, hi)

    def dt_from_us(self, us):
        import datetime

        real = getattr(datetime.datetime, "_vt_real", datetime.datetime)
        d = real(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(
            microseconds=us
        )
        return d.astimezone()

    def dt(self, name, lo=T_LO, hi=T_HI):
        return self.dt_from_us(self.int(name, lo, hi))

    def td(self, name, lo=0, hi=10**12):
        import datetime

        return datetime.timedelta(microseconds=self.int(name, lo, hi))

    def set_local_offset(self, name="local_off_min", lo=-14 * 60, hi=14 * 60):
        m = self.int(name, 0, 0)
        self.local_off = m * 60_000_000
        sign = "-" if m >= 0 else "+"
        os.environ["TZ"] = "LCL{}{:02d}:{:02d}".format(sign, abs(m) // 60, abs(m) % 60)
        _time.tzset()

        self.cleanups.append(self._utc)

    def _utc(self):
        os.environ["TZ"] = "UTC"
        _time.tzset()

    def set_local_zone(self, trans, off1, off2):
        """As a POSIX rule: right for about half a year around the change."""
        self.local_off, self.local_trans = off1 * 60_000_000, (trans, off2 * 60_000_000)

        def off(m):
            return "{}{:02d}:{:02d}".format("-" if m >= 0 else "+", abs(m) // 60, abs(m) % 60)

        wall = trans // 10**6 + off1 * 60
        t = _time.gmtime(wall)
        leap = t.tm_year % 4 == 0
        start = t.tm_yday - (1 if leap and t.tm_yday > 59 else 0)
        end = (start - 1 + 182) % 365 + 1
        at = wall % 86400
        change = "J{}/{:d}:{:02d}:{:02d}".format(start, at // 3600, at // 60 % 60, at % 60)
        # daylight saving time is the later one of the two clocks
        if off2 > off1:
            os.environ["TZ"] = "VTA{}VTB{},{},J{}/12".format(off(off1), off(off2), change, end)
        else:
            os.environ["TZ"] = "VTA{}VTB{},J{}/12,{}".format(off(off2), off(off1), end, change)
        _time.tzset()
        self.cleanups.append(self._utc)

    def observe(self, name, value):
        self.observations.append((name, value))

    def eq_real(self, a, b, tol=2e-6):
        return abs(a - b) <= tol + 1e-14 * max(abs(a), abs(b))


def norm_json(o):
    return json.loads(json.dumps(o, default=repr))


def _real(name):
    from . import world

    return world._REAL.get(("os", name), getattr(os, name))


class Engine:
    """Explores all feasible paths of a harness.

    At a branch with two feasible sides the process forks: the child explores one side
    and the parent the other, so that no path prefix is executed twice and independent
    paths run in parallel (as far as tokens of the runner's job server allow).
    """

    def __init__(self, query_timeout_ms=20000, max_paths=100000, max_seconds=600, tokens=None):
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.deadline = _time.time() + max_seconds
        self.tier = "quick"
        self.tokens = tokens  # (read fd, write fd) or None
        self.have_token = False
        self.is_root = True
        self.seen_exec = set()
        self.shared = mmap.mmap(-1, 4096)  # paths, findings, stop flag (approximate counters)
        self.reset()

    def reset(self):
        self.solver_time = 0.0
        self.queries = self.branches = self.forks = self.unknowns = 0
        self.obligations = self.discharged = self.trivial = 0
        self.paths = self.cut_paths = 0
        self.covers = set()
        self.labels = set()
        self.samples = []
        self.findings = []
        self.problems = []
        self.witnesses = []
        self.degraded = {}
        self.degraded_paths = 0

    # -- shared counters ------------------------------------------------------
    def _get(self, i):
        return struct.unpack_from("q", self.shared, i * 8)[0]

    def _bump(self, i):
        struct.pack_into("q", self.shared, i * 8, self._get(i) + 1)

    def tick(self):
        if self._get(2):
            raise PathEnd("stopped")
        if _time.time() > self.deadline:
            raise Limit("time limit")
        if self._get(0) > self.max_paths:
            raise Limit("path limit {} reached".format(self.max_paths))

    def site(self, e=None):
        """Debugging aid: which line of dsari or of the harness forks."""
        import sys

        f = sys._getframe(1)
        out = []
        while f is not None and len(out) < 3:
            fn = f.f_code.co_filename
            if "/dsari/" in fn or "/checks/" in fn or fn.endswith("world.py"):
                out.append("{}:{}".format(os.path.basename(fn), f.f_lineno))
            f = f.f_back
        with open("/tmp/vtsites", "a") as fo:
            fo.write(" < ".join(out) + "   " + str(e).replace("\n", " ")[:200] + "\n")

    # -- processes --------------------------------------------------------------
    def fork(self):
        """True in the child."""
        self.forks += 1
        token = False
        if self.tokens is not None:
            try:
                token = bool(os.read(self.tokens[0], 1))
            except BlockingIOError:
                pass
        pid = _real("fork")()
        if pid == 0:
            self.is_root = False
            self.have_token = token
            self.reset()
            from . import rt

            self.seen_exec = set(rt.EXECUTED)
            return True
        if not token:
            # the child uses this process's share of the CPU; orphans go to the root
            while True:
                try:
                    os.waitpid(pid, 0)
                    break
                except InterruptedError:
                    continue
                except ChildProcessError:
                    break
        return False

    def explore(self, harness, out_path, n_samples=20, max_findings=3):
        """Run to completion in the root process; returns the merged results."""
        self.max_findings = max_findings
        self.n_samples = n_samples
        gc.collect()
        gc.disable()
        libc = ctypes.CDLL(None)
        libc.prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
        alive_r, alive_w = os.pipe()
        self.out = os.open(out_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND | os.O_TRUNC, 0o600)
        c = SymCtx(self)
        set_ctx(c)
        try:
            self._one(c, harness)
        except BaseException as e:
            self.problems.append("engine: {!r}".format(e))
        finally:
            try:
                c.finish()
            except Exception as e:
                self.problems.append("cleanup: {!r}".format(e))
            set_ctx(None)
        self._dump(c)
        if not self.is_root:
            if self.have_token:
                os.write(self.tokens[1], b"t")
            _real("_exit")(0)
        if self.tokens is not None:
            os.write(self.tokens[1], b"t")  # the root only waits from here on
        os.close(alive_w)
        os.set_blocking(alive_r, False)
        while True:
            try:
                while os.waitpid(-1, os.WNOHANG)[0]:
                    pass
            except ChildProcessError:
                pass
            try:
                if os.read(alive_r, 1) == b"":
                    break
            except BlockingIOError:
                _time.sleep(0.01)
        if self.tokens is not None:
            while True:
                try:
                    if os.read(self.tokens[0], 1):
                        break
                except BlockingIOError:
                    _time.sleep(0.01)
        os.close(self.out)
        return self._merge(out_path)

    def _one(self, c, harness):
        try:
            harness(c)
            self.paths += 1
            self._sample(c)
        except Found as f:
            self.paths += 1
            self._finding(c, f.label, f.detail)
        except PathEnd:
            self.cut_paths += 1
        except Unsupported as u:
            if os.environ.get("VT_DEBUG"):
                traceback.print_exc(file=open(os.environ["VT_DEBUG"], "a"))
            # outside the encoding: this path is only decided for one model
            self._witness(c, "unsupported: {}".format(u))
        except Limit as l:
            self.problems.append("limit: {}".format(l))
        except EngineSignal as s:
            self._problem("engine signal escaped: {!r}".format(s))
        except (Exception, SystemExit) as e:  # uncaught exception of the code under test
            self.paths += 1
            tb = traceback.format_exc(limit=-6)
            fr = traceback.extract_tb(e.__traceback__)
            if not any("/dsari/" in x.filename for x in fr):
                self._problem("harness error: " + tb)
            else:
                self._finding(c, "uncaught {}".format(type(e).__name__), tb)
        self.covers |= c.covers

    def _dump(self, c):
        from . import rt

        self._bump(0)
        d = self.stats()
        for k in ("findings", "problems", "witnesses", "samples"):
            v = getattr(self, k)
            if v:
                d[k] = v
        d["covers"] = sorted(self.covers)
        d["labels"] = sorted(self.labels)
        d["key"] = "".join("1" if x else "0" for x in c.decisions)
        d["executed"] = sorted(set(rt.EXECUTED) - self.seen_exec)
        os.write(self.out, (json.dumps(d, default=repr) + "\n").encode())

    def _merge(self, path):
        self.reset()
        executed = set()
        rows = []
        with open(path) as f:
            for line in f:
                rows.append(json.loads(line))
        rows.sort(key=lambda d: d["key"])
        samples = []
        for d in rows:
            for k in ("paths", "cut_paths", "branches", "forks", "queries", "unknowns",
                      "obligations", "discharged", "degraded_paths"):
                setattr(self, k, getattr(self, k) + d[k])
            self.trivial += d["trivially_true"]
            self.solver_time += d["solver_time_s"]
            for k, n in d["degraded_reasons"].items():
                self.degraded[k] = self.degraded.get(k, 0) + n
            self.findings += d.get("findings", [])
            for x in d.get("problems", []):
                self._problem(x)
            self.witnesses += d.get("witnesses", [])
            samples += d.get("samples", [])
            self.covers |= set(d["covers"])
            self.labels |= set(d["labels"])
            executed |= set(d["executed"])
        n = self.n_samples
        if len(samples) > n:
            samples = [samples[i * len(samples) // n] for i in range(n)]
        self.samples = samples
        seen = {}
        for f in self.findings:
            seen.setdefault(f["label"], []).append(f)
        self.findings = [f for fs in seen.values() for f in fs[:2]]
        why = {}
        for w in self.witnesses:
            why.setdefault(w["why"], []).append(w)
        per = max(3, 120 // max(1, len(why)))
        self.witnesses = [w for ws in why.values() for w in ws[:per]]
        self.executed = executed
        # every child must have reported
        if len(rows) != self.forks + 1:
            self._problem("{} processes lost".format(self.forks + 1 - len(rows)))
        return self

    def _witness(self, c, why):
        self.degraded_paths += 1
        if why not in self.degraded:
            self.degraded[why] = 0
        self.degraded[why] += 1
        try:
            m = self._model(c)
        except Unsupported:
            return
        if m is not None:
            self.witnesses.append({"why": why, "values": c.model_values(m)})

    def _problem(self, s):
        if s not in self.problems:
            self.problems.append(s)

    def _model(self, c):
        if c.model is None:
            if not c.check():
                return None
            c.model = c.solver.model()
        return c.model

    def _finding(self, c, label, detail):
        try:
            m = self._model(c)
        except Unsupported as u:
            self._problem("no model for finding {}: {}".format(label, u))
            return
        if m is None:
            return
        self.findings.append(
            {"label": label, "detail": str(detail)[:3000], "values": c.model_values(m),
             "approximate": "approximate" in c.__dict__}
        )
        self._bump(1)
        if self._get(1) >= self.max_findings:
            struct.pack_into("q", self.shared, 16, 1)

    def _sample(self, c):
        if self._get(0) > 40 and zlib.crc32(bytes(map(int, c.decisions))) % 16:
            return
        try:
            m = self._model(c)
        except Unsupported:
            return
        if m is None:
            return
        from .sym import model_eval

        self.samples.append(
            {
                "values": c.model_values(m),
                "observations": [(k, norm_json(model_eval(v, m))) for k, v in c.observations],
            }
        )

    def stats(self):
        return {
            "paths": self.paths,
            "cut_paths": self.cut_paths,
            "branches": self.branches,
            "forks": self.forks,
            "queries": self.queries,
            "unknowns": self.unknowns,
            "obligations": self.obligations,
            "discharged": self.discharged,
            "trivially_true": self.trivial,
            "degraded_paths": self.degraded_paths,
            "degraded_reasons": self.degraded,
            "solver_time_s": round(self.solver_time, 3),
        }

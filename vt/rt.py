"""Runtime of the instrumented code: lifts C-level operations to symbolic values."""
import binascii
import builtins
import copy
import functools
import operator
import datetime as _dt
import json
import math
import os
import re
import shlex
import sys
import types

from . import core
from .core import EngineSignal, Unsupported
from .sym import (
    POWGRID,
    monotone,
    ite_any,

    And,
    REAL_DATETIME,
    REAL_TIMEDELTA,
    SDict,
    SSet,
    SKeys,
    Sym,
    SymBool,
    SymBytes,
    SymDT,
    SymInt,
    SymRaw,
    SymReal,
    SymStr,
    SymTD,
    SymTZ,
    _err,
    _keyeq,
    _is_symkey,
    contains_sym,
    floor_z,
    fmt_value,
    frac,
    mkstr,
    py_type,
    re_match,
    round_half_even_z,
    str_format,
    str_join,
    str_percent,
    to_str_pieces,
    tz_off,
    zint,
    zreal,
)

try:
    import z3
except ImportError:
    z3 = None

EXECUTED = set()
YIELD_HOOK = None


# -- displays and operators ---------------------------------------------------


def _d_(items):
    d = SDict()
    for k, v in items:
        if k is Ellipsis:
            d.update(v)
        else:
            d[k] = v
    return d


def _s_(items):
    items = list(items)
    if core.CTX is not None and core.CTX.sym:
        return SSet(items)
    return set(items)


def _in_(x, c):
    if type(c) is SDict:
        return x in c
    t = type(c)
    if t in (list, tuple) or isinstance(c, (type({}.values()),)):
        if _is_symkey(x) or any(isinstance(y, Sym) for y in c):
            return any(y is x or bool(x == y) for y in c)
        return x in c
    if isinstance(c, SymStr) or type(c) is SymStr:
        return c.__contains__(x)
    if _is_symkey(x):
        if isinstance(c, str):
            return SymStr([("c", c)]).__contains__(x)
        if isinstance(c, (dict, set, frozenset, type({}.keys()), type(os.environ))):
            return any(_keyeq(y, x) for y in list(c))
    return x in c


def _slice_(a, b, c):
    return slice(a, b, c)


def _gi_(o, k):
    if isinstance(k, slice):
        if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
            if isinstance(o, str) and type(o) is not SymStr:
                return SymStr([("c", o)])[k]
            if isinstance(o, (list, tuple)):
                n = len(o)
                return o[_pick_bound(k.start, n, 0) : _pick_bound(k.stop, n, n) : k.step]
        return o[k]
    if type(k) in (SymInt, SymBool):
        k = k if type(k) is SymInt else SymInt(zint(k))
        if isinstance(o, (list, tuple)):
            n = len(o)
            for i in range(-n, n):
                if k == i:
                    return o[i]
            raise IndexError("list index out of range")
        if isinstance(o, str) and type(o) is not SymStr:
            return SymStr([("c", o)])[k]
    if _is_symkey(k) and isinstance(o, dict) and type(o) is not SDict:
        for kk in list(o):
            if _keyeq(kk, k):
                return o[kk]
        if hasattr(o, "__missing__"):
            return o[k]
        raise KeyError(k)
    return o[k]


def _pick_bound(x, n, d):
    if x is None:
        return d
    if not isinstance(x, Sym):
        return x
    if x >= n:
        return n
    if x <= -n:
        return 0
    for i in range(-n + 1, n):
        if x == i:
            return i
    raise Unsupported("slice bound")


def _mod_(a, b):
    if isinstance(a, str):
        if type(a) is SymStr:
            raise Unsupported("% on a symbolic template")
        return str_percent(a, b)
    return a % b


_BITS = {"&": operator.and_, "|": operator.or_, "^": operator.xor, "-": operator.sub}
_SETS = (set, frozenset, type({}.keys()), SKeys)


def _bit_(op, a, b):
    if isinstance(a, _SETS) and (isinstance(b, _SETS) or type(b) is SSet):
        if any(_is_symkey(x) for x in a) or any(_is_symkey(x) for x in b):
            return _BITS[op](SSet(a), SSet(b))
        return _BITS[op](set(a) if type(a) is SKeys else a, set(b) if type(b) in (SKeys, SSet) else b)
    return _BITS[op](a, b)


def _fmt_(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out += fmt_value(v, conv, spec)
        else:
            out.append(("c", p))
    return mkstr(out)


def _ee_():
    e = sys.exc_info()[1]
    if isinstance(e, EngineSignal):
        raise e


def _mg_(c, new, old):
    if type(c) is not SymBool:
        return None
    try:
        a, b = new(), old()
    except Exception:
        return None
    if not isinstance(b, Sym) and not isinstance(a, Sym):
        if type(a) not in (int, float, REAL_DATETIME, REAL_TIMEDELTA):
            return None
    e = z3.simplify(c.e)
    if z3.is_true(e) or z3.is_false(e):
        return None
    return ite_any(c, a, b)


def _y_(lineno):
    if YIELD_HOOK is not None:
        YIELD_HOOK(lineno, sys._getframe(1))


# -- lifted builtins ----------------------------------------------------------


def _type(*a):
    return py_type(a[0]) if len(a) == 1 else type(*a)


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if type(x) is SDict:
        return isinstance(x, t)
    if isinstance(x, Sym):
        return any(
            isinstance(x, y) if not isinstance(y, type) else issubclass(py_type(x), y) or isinstance(x, y)
            for y in ts
        )
    return isinstance(x, t)


def _len(x):
    if type(x) is SymStr:
        return x.len()
    if type(x) in (SymBytes, SymRaw):
        return x.len()
    return len(x)


def _str(*a, **k):
    if a and len(a) == 1 and (contains_sym(a[0]) or isinstance(a[0], BaseException)):
        if isinstance(a[0], KeyError) and contains_sym(a[0].args):
            return SymStr([("o", ("keyerr", id(a[0])))])
        return mkstr(to_str_pieces(a[0]))
    if a and type(a[0]) in (SymBytes, SymRaw) and len(a) + len(k) > 1:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def _repr(x):
    if contains_sym(x):
        if type(x) is SymInt:
            return mkstr([("d", x.e)])
        return SymStr([("o", ("repr", id(x)))])
    return repr(x)


def _int(*a, **k):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return SymInt(zint(x))
        if type(x) is SymReal:
            return x.__trunc__()
        if type(x) is SymStr:
            if len(x.p) == 1 and x.p[0][0] == "d":
                return SymInt(x.p[0][1])
            if len(x.p) == 1 and x.p[0][0] == "z":
                e = x.p[0][1]
                m = re_match("fullmatch", r"[0-9]+", x)
                if m is not None:
                    return SymInt(z3.StrToInt(e))
                raise Unsupported("int() of a non-digit symbolic string")
            if all(kk in "dc" for kk, _ in x.p) and all(
                v.isdigit() for kk, v in x.p if kk == "c"
            ):
                return SymInt(z3.StrToInt(x.z()))
            raise Unsupported("int() of a symbolic string")
    return int(*a, **k)


def _float(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if type(x) is SymReal:
            return x
        if type(x) in (SymInt, SymBool):
            return SymReal(zreal(x))
        if type(x) is SymStr:
            if len(x.p) == 1 and x.p[0][0] == "r":
                return SymReal(x.p[0][1])
            if len(x.p) == 1 and x.p[0][0] == "d":
                return SymReal(z3.ToReal(x.p[0][1]))
            raise Unsupported("float() of a symbolic string")
        raise TypeError("float() argument must be a string or a real number")
    return float(*a)


def _bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) in (SymInt, SymReal):
        return SymBool(a[0].e != 0)
    return bool(*a)


def _range(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [SymInt(zint(x)) if isinstance(x, Sym) else x for x in a]
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a

        def gen():
            i = lo
            while (i < hi) if st > 0 else (i > hi):
                yield i
                i = i + st

        return gen()
    return range(*a)


def _print(*a, **k):
    if contains_sym(list(a)) or isinstance(k.get("end"), Sym):
        f = k.get("file") or sys.stdout
        s = str_join(k.get("sep") or " ", [mkstr(to_str_pieces(x)) for x in a])
        s = mkstr(SymStr.pieces(s) + SymStr.pieces(k.get("end", "\n") if k.get("end") is not None else "\n"))
        f.write(s)
        return
    return print(*a, **k)


def _set(*a):
    if a:
        items = list(a[0])
        if core.CTX is not None and core.CTX.sym:
            return SSet(items)
        return set(items)
    return SSet() if core.CTX is not None and core.CTX.sym else set()


def _dict(*a, **k):
    return SDict(*a, **k)


def _tuple_list(f):
    return f


def _math_floor(x):
    if type(x) is SymReal:
        return SymInt(floor_z(x.e))
    return math.floor(x)


def _math_ceil(x):
    if type(x) is SymReal:
        return SymInt(-floor_z(-x.e))
    return math.ceil(x)


_LOGGRID = None


def _loggrid():
    global _LOGGRID
    if _LOGGRID is None:
        rs = POWGRID
        # x with 2**ln(x) == r
        _LOGGRID = sorted({math.exp(math.log2(r)) for r in rs} | {float(r) for r in rs} | {1.0, 0.001, 0.1, 1e9})
    return _LOGGRID


def _math_log(x, *base):
    if not isinstance(x, Sym):
        return math.log(x, *base)
    if base:
        b = base[0]
        return _math_log(x) / math.log(b)
    c = core.CTX
    e = zreal(x)
    if not c.decide(SymBool(e > 0)):
        raise ValueError("math domain error")
    c.approximate = True
    r = z3.Real(c.uniq("log"))
    cons = []
    for g in _loggrid():
        cons.append((e >= frac(g)) == (r >= frac(math.log(g))))
    logs = c.__dict__.setdefault("logs", [])
    for e2, r2 in logs:
        cons += [(e >= e2) == (r >= r2), (e2 >= e) == (r2 >= r)]
    logs.append((e, r))
    c.add(z3.And(*cons))
    return SymReal(r)


def _math_pow(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return (float(x) if isinstance(x, int) else x) ** y
    return math.pow(x, y)


def _math_exp(x):
    if not isinstance(x, Sym):
        return math.exp(x)
    return monotone("exp", zreal(x), [(math.log(r), r) for r in POWGRID + [1.0]])


def _math_trunc(x):
    return x.__trunc__()


def _math_isfinite(x):
    return True if isinstance(x, Sym) else math.isfinite(x)


def _math_isnan(x):
    return False if isinstance(x, Sym) else math.isnan(x)


def _math_isinf(x):
    return False if isinstance(x, Sym) else math.isinf(x)


def _path_join(a, *rest):
    parts = [a] + list(rest)
    if not contains_sym(parts):
        return os.path.join(a, *rest)
    out = parts[0]
    for b in parts[1:]:
        if not isinstance(b, str):
            raise TypeError("join() argument must be str, bytes, or os.PathLike object, not {!r}".format(py_type(b).__name__))
        st = b.startswith("/")
        if st if not isinstance(st, Sym) else bool(st):
            out = b
            continue
        if isinstance(out, str) and type(out) is not SymStr:
            end = out.endswith("/") or out == ""
        else:
            end = out.endswith("/")
            if isinstance(end, Sym):
                end = bool(end)
            if not end:
                end = not bool(out)
        out = out + b if end else out + "/" + b
    return out


def _path_basename(p):
    if isinstance(p, Sym):
        return p.rpartition("/")[2]
    return os.path.basename(p)


def _path_dirname(p):
    return _path_split(p)[0]


def _path_split(p):
    if isinstance(p, Sym):
        head, sep, tail = p.rpartition("/")
        if isinstance(head, str) and type(head) is not SymStr:
            return (os.path.dirname(head + sep), tail)
        return (head.rstrip("/"), tail)
    return os.path.split(p)


def _path_splitext(p):
    if not isinstance(p, Sym):
        return os.path.splitext(p)
    base = _path_basename(p)
    head, sep, tail = base.rpartition(".")
    if not sep or not head or not head.lstrip("."):
        return (p, "")
    if isinstance(tail, str) and type(tail) is not SymStr and isinstance(p, SymStr) and p.p[-1][0] == "c":
        return (p[: -len(tail) - 1] if p.chars() is not None else mkstr(p.p[:-1] + [("c", p.p[-1][1][: -len(tail) - 1])]), "." + tail)
    raise Unsupported("extension of a symbolic path")


def _fsum(it):
    vs = list(it)
    if any(isinstance(v, Sym) for v in vs):
        return _sum(vs, 0.0)
    return math.fsum(vs)


def _bytes(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:], **k)
    if a and isinstance(a[0], Sym) and len(a) == 1:
        return a[0]
    return bytes(*a, **k)


def lifted(f):
    """The callable to be called by the interpreter itself."""
    try:
        if f in TABLE or isinstance(f, (_BM, types.MethodDescriptorType, functools.partial)):
            return lambda *a, **k: _c_(f, *a, **k)
    except TypeError:
        pass
    return f


def _map(f, *its):
    return map(lifted(f), *its)


def _filter(f, it):
    return filter(lifted(f), it)


def _reduce(f, *a):
    return functools.reduce(lifted(f), *a)


def _extreme(f):
    def g(*a, **k):
        if k.get("key") is not None:
            k["key"] = lifted(k["key"])
        return f(*a, **k)

    return g


class JSONText:
    """json.dumps result of a structure holding symbolic values."""

    TABLE = {}
    RAW = set()  # those not made of ASCII characters only
    n = 0


def encodable(s):
    """Raise what encoding a text as UTF-8 would raise."""
    if type(s) is str:
        s.encode("utf-8")
    elif type(s) is SymStr:
        for k, x in s.p:
            if k == "c":
                x.encode("utf-8")
            elif k == "o" and x in JSONText.RAW:
                leaves_encodable(JSONText.TABLE[x])


def leaves_encodable(v):
    if isinstance(v, dict):
        for k in v:
            leaves_encodable(k)
            leaves_encodable(v[k])
    elif isinstance(v, (list, tuple)):
        for x in v:
            leaves_encodable(x)
    else:
        encodable(v)


def jsonable(v, sort_keys=False):
    """Raise what json.dumps would raise for v (structure concrete, leaves symbolic)."""
    t = py_type(v)
    if v is None or t in (str, int, float, bool):
        return
    if issubclass(t, dict):
        ks = list(v.keys())
        for k in ks:
            kt = py_type(k)
            if not (k is None or issubclass(kt, (str, int, float))):
                raise TypeError(
                    "keys must be str, int, float, bool or None, not {}".format(kt.__name__)
                )
        if sort_keys and len({py_type(k) in (int, float, bool) for k in ks if k is not None} | ({None} if None in [k for k in ks if k is None] else set())) > 1:
            raise TypeError("'<' not supported between instances of 'int' and 'str'")
        for k in ks:
            jsonable(v[k], sort_keys)
        return
    if issubclass(t, (list, tuple)):
        for x in v:
            jsonable(x, sort_keys)
        return
    if issubclass(t, (str, int, float)):
        return
    raise TypeError("Object of type {} is not JSON serializable".format(t.__name__))


def as_json(v):
    """What json.loads(json.dumps(v)) yields."""
    t = py_type(v)
    if issubclass(t, dict):
        out = SDict()
        for k, x in v.items():
            if k is None:
                k = "null"
            elif py_type(k) is bool:
                k = "true" if k else "false"
            elif py_type(k) in (int, float):
                k = _str(k)
            out[k] = as_json(x)
        return out
    if issubclass(t, (list, tuple)):
        return [as_json(x) for x in v]
    return v


def _deep_sym(v):
    if isinstance(v, Sym):
        return True
    if isinstance(v, dict):
        if type(v) is SDict and v._log is not None:
            return True
        return any(_deep_sym(x) for x in dict.values(v))
    if type(v) in (list, tuple):
        return any(_deep_sym(x) for x in v)
    return False


def _json_dumps(v, *a, **k):
    if not _deep_sym(v) or k.get("default") is not None or k.get("cls") is not None:
        return json.dumps(v, *a, **k)
    jsonable(v, bool(k.get("sort_keys")))
    JSONText.n += 1
    key = ("json", JSONText.n)
    JSONText.TABLE[key] = copy.deepcopy(v)
    if k.get("ensure_ascii") is False:
        JSONText.RAW.add(key)
    if k.get("skipkeys"):
        raise Unsupported("json skipkeys")
    return SymStr([("o", key)])


def json_key(s):
    if type(s) is SymStr and s.p and s.p[0][0] == "o":
        k = s.p[0][1]
        if isinstance(k, tuple) and k and k[0] == "json":
            if len(s.p) == 1 or len(s.p) == 2 and s.p[1][0] == "c" and not s.p[1][1].strip():
                return k
    return None


def yamlable(v):
    t = py_type(v)
    if v is None or issubclass(t, dict) and t in (dict, SDict):
        for k, x in (v or {}).items():
            yamlable(k)
            yamlable(x)
    elif t in (list, tuple):
        for x in v:
            yamlable(x)
    elif t not in (str, int, float, bool, bytes, set, _dt.date, REAL_DATETIME):
        import yaml

        raise yaml.representer.RepresenterError("cannot represent an object", t.__name__)


def as_yaml(v):
    """What yaml.safe_load(yaml.safe_dump(v)) yields."""
    t = py_type(v)
    if issubclass(t, dict):
        return SDict([(k, as_yaml(x)) for k, x in v.items()])
    if t in (list, tuple):
        return [as_yaml(x) for x in v]
    return v


def undo_sd(v):
    t = type(v)
    if t is SDict:
        return {k: undo_sd(x) for k, x in v.items()}
    if t is dict:
        return {k: undo_sd(x) for k, x in v.items()}
    return [undo_sd(x) for x in v] if t is list else v


def colored(real):
    """The text between the same escape sequences."""

    def f(text, *a, **k):
        if not isinstance(text, SymStr):
            return real(text, *a, **k)
        pre, _, post = real("\0", *a, **k).partition("\0")
        return pre + text + post

    return f


def yaml_dump(real):
    def f(v, stream=None, **k):
        if not _deep_sym(v):
            return real(undo_sd(v), stream, **k)
        yamlable(v)
        JSONText.n += 1
        key = ("yaml", JSONText.n)
        JSONText.TABLE[key] = copy.deepcopy(v)
        r = SymStr([("o", key), ("c", "\n")])
        if stream is None:
            return r
        stream.write(r)

    return f


def yaml_text(s):
    """The structure of a text made by yaml_dump."""
    if type(s) is SymStr and s.p and s.p[0][0] == "o" and isinstance(s.p[0][1], tuple) and s.p[0][1][:1] == ("yaml",):
        if len(s.p) == 1 or len(s.p) == 2 and s.p[1] in (("c", "\n"), ("c", "\n\n")):
            return as_yaml(JSONText.TABLE[s.p[0][1]])
    return None


def _json_loads(s, *a, **k):
    key = json_key(s)
    if key is not None:
        return as_json(JSONText.TABLE[key])
    if type(s) is SymStr and len(s.p) == 1 and s.p[0][0] == "o":
        h = s.p[0][1]
        if isinstance(h, tuple) and h and h[0] == "vtext":
            return h[1].parse("json")
    if isinstance(s, Sym):
        raise Unsupported("json.loads of symbolic text")
    return sd(json.loads(s, *a, **k))


def sd(v, memo=None):
    """Turn plain dicts into SDict, recursively; what is shared stays shared."""
    memo = {} if memo is None else memo
    if type(v) is dict:
        if id(v) not in memo:
            memo[id(v)] = v, SDict([(k, sd(x, memo)) for k, x in v.items()])
        return memo[id(v)][1]
    if type(v) is list:
        if id(v) not in memo:
            memo[id(v)] = v, [sd(x, memo) for x in v]
        return memo[id(v)][1]
    return v


def _json_load(f, *a, **k):
    p = getattr(f, "vt_parse", None)
    if p is not None:
        return p("json")
    return sd(json.load(f, *a, **k))


def _json_dump(v, f, *a, **k):
    f.write(_json_dumps(v, *a, **k))


def _timedelta(*a, **k):
    if not any(isinstance(x, Sym) for x in list(a) + list(k.values())):
        return REAL_TIMEDELTA(*a, **k)
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    mult = {
        "days": 86400 * 10**6,
        "seconds": 10**6,
        "microseconds": 1,
        "milliseconds": 1000,
        "minutes": 60 * 10**6,
        "hours": 3600 * 10**6,
        "weeks": 7 * 86400 * 10**6,
    }
    vals = dict(zip(names, a))
    vals.update(k)
    e = z3.IntVal(0)
    real = None
    for n, v in vals.items():
        if isinstance(v, float):
            t = _err(zreal(v) * mult[n]) if isinstance(v, Sym) else zreal(v) * mult[n]
            real = t if real is None else real + t
        elif isinstance(v, int):
            e = e + zint(v) * mult[n]
        else:
            raise TypeError("unsupported type for timedelta {} component: {}".format(n, py_type(v).__name__))
    if real is not None:
        e = e + round_half_even_z(real)
    lim = 86400 * 10**6 * 999999999
    if not core.CTX.decide(SymBool(z3.And(e >= -lim, e <= lim))):
        raise OverflowError("days out of range for timedelta")
    return SymTD(z3.simplify(e))


def _crc32(data, *a):
    w = getattr(core.CTX, "world", None)
    if w is not None:
        r = w.crc(data)
        if r is not None:
            return r
    if type(data) is SymBytes and not a:
        # some function of the text: a counterexample which needs a certain
        # value of it has to be reproduced to count
        c = core.CTX
        c.approximate = True
        e = z3.Function("crc32", z3.StringSort(), z3.IntSort())(data.s.z())
        c.add(z3.And(e >= 0, e < 2**32))
        return SymInt(e)
    if isinstance(data, Sym):
        raise Unsupported("crc32 of symbolic data")
    return binascii.crc32(data, *a)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _any_all(f):
    return f


def _getattr(o, n, *d):
    if type(n) is SymStr:
        raise Unsupported("getattr with a symbolic name")
    return getattr(o, n, *d)


def _deepcopy(x, *a):
    return copy.deepcopy(x, *a)


def _shlex_split(s, *a, **k):
    if isinstance(s, Sym):
        if not s:
            return []
        if a or k or _re("fullmatch")(r"[A-Za-z0-9_./=-]+", s) is None:
            raise Unsupported("splitting a symbolic command line")
        return [s]
    return shlex.split(s, *a, **k)


def _quote(s):
    if type(s) is SymStr:
        return SymStr([("o", ("quote", id(s)))])
    return shlex.quote(s)


def _hash(x):
    return hash(x)


def _re(mode):
    def f(pattern, string, flags=0):
        if isinstance(string, Sym):
            if isinstance(pattern, re.Pattern):
                return re_match(mode, pattern.pattern, string, pattern.flags & ~re.U)
            return re_match(mode, pattern, string, flags)
        return getattr(re, mode)(pattern, string, flags)

    return f


def _divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a // b, a % b)
    return divmod(a, b)


def _sorted(it, **k):
    vs = list(it)
    if k.get("key") is not None:
        k["key"] = lifted(k["key"])
    if (
        not any(k.values())
        and 1 < len(vs) <= 8
        and any(isinstance(v, Sym) for v in vs)
        and (all(type(v) in (int, SymInt) for v in vs) or all(type(v) in (float, SymReal) for v in vs))
    ):
        # numbers: a sorting network instead of a path per order
        cls = SymInt if type(vs[0]) in (int, SymInt) else SymReal
        es = [zint(v) if cls is SymInt else zreal(v) for v in vs]
        for n in range(len(es) - 1, 0, -1):
            for i in range(n):
                a, b = es[i], es[i + 1]
                es[i], es[i + 1] = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        return [cls(e) for e in es]
    return sorted(vs, **k)


def _isclose(a, b, **k):
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Unsupported("isclose")
    return math.isclose(a, b, **k)


TABLE = {
    type: _type,
    isinstance: _isinstance,
    len: _len,
    str: _str,
    repr: _repr,
    int: _int,
    float: _float,
    bool: _bool,
    range: _range,
    print: _print,
    set: _set,
    dict: _dict,
    sum: _sum,
    math.fsum: _fsum,
    bytes: _bytes,
    map: _map,
    filter: _filter,
    functools.reduce: _reduce,
    min: _extreme(min),
    max: _extreme(max),
    os.path.split: _path_split,
    os.path.splitext: _path_splitext,
    sorted: _sorted,
    getattr: _getattr,
    divmod: _divmod,
    math.floor: _math_floor,
    math.ceil: _math_ceil,
    math.log: _math_log,
    math.pow: _math_pow,
    math.exp: _math_exp,
    math.trunc: _math_trunc,
    math.isfinite: _math_isfinite,
    math.isnan: _math_isnan,
    math.isinf: _math_isinf,
    os.path.join: _path_join,
    os.path.basename: _path_basename,
    os.path.dirname: _path_dirname,
    json.dumps: _json_dumps,
    json.loads: _json_loads,
    json.load: _json_load,
    json.dump: _json_dump,
    REAL_TIMEDELTA: _timedelta,
    binascii.crc32: _crc32,
    shlex.quote: _quote,
    shlex.split: _shlex_split,
    re.match: _re("match"),
    re.search: _re("search"),
    re.fullmatch: _re("fullmatch"),
}
import zlib as _zlib

TABLE[_zlib.crc32] = _crc32


def register(f, g):
    TABLE[f] = g


_BM = types.BuiltinMethodType
_STRDESC = {}


def _strmeth(f, s, a, k):
    n = f.__name__
    if n == "format":
        return str_format(s, a, k)
    if n == "join":
        items = list(a[0])
        if contains_sym(items):
            return str_join(s, items)
        return s.join(items)
    if contains_sym(list(a)) or contains_sym(list(k.values())):
        ss = SymStr([("c", s)])
        if n in ("startswith", "endswith", "find", "replace", "split", "removeprefix", "rsplit", "partition", "index"):
            return getattr(ss, n)(*a, **k)
        raise Unsupported("str.{} with symbolic arguments".format(n))
    return f(*a, **k)


def _c_(f, *a, **k):
    try:
        g = TABLE.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    tf = type(f)
    if tf is functools.partial:
        return _c_(f.func, *f.args, *a, **{**f.keywords, **k})
    if isinstance(f, _BM):
        s = f.__self__
        ts = type(s)
        if ts is str:
            return _strmeth(f, s, a, k)
        if ts is list:
            if f.__name__ == "sort" and k.get("key") is not None:
                k["key"] = lifted(k["key"])
            return f(*a, **k)
        if isinstance(s, re.Pattern) and a and isinstance(a[0], Sym):
            if f.__name__ in ("match", "search", "fullmatch"):
                return re_match(f.__name__, s.pattern, a[0], s.flags & ~re.U)
            raise Unsupported("regex method on symbolic text")
        if ts in (dict,) and a and _is_symkey(a[0]):
            if f.__name__ == "get":
                for kk in list(s):
                    if _keyeq(kk, a[0]):
                        return s[kk]
                return a[1] if len(a) > 1 else None
            raise Unsupported("dict.{} with a symbolic key".format(f.__name__))
        if ts is set and a and _is_symkey(a[0]):
            raise Unsupported("set with symbolic members")
        if isinstance(s, REAL_DATETIME) and f.__name__ in ("astimezone", "replace"):
            if any(isinstance(x, Sym) for x in a) or any(isinstance(x, Sym) for x in k.values()):
                return getattr(SymDT.of(s), f.__name__)(*a, **k)
    elif tf is types.MethodDescriptorType and a and f.__objclass__ is str:
        if type(a[0]) is SymStr:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if type(a[0]) is str:
            return _c_(getattr(a[0], f.__name__), *a[1:], **k)
    elif tf is types.FunctionType or tf is types.MethodType:
        m = getattr(f, "__module__", None)
        if m is not None and m.startswith("dsari"):
            EXECUTED.add("{}.{}".format(m, f.__qualname__))
    elif isinstance(f, type) and (getattr(f, "__module__", None) or "").startswith("dsari"):
        EXECUTED.add("{}.{}".format(f.__module__, f.__qualname__))
    return f(*a, **k)

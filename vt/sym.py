"""Symbolic values: proxies around z3 terms that fork through the current SymCtx."""
import copy
import datetime as _dt
import fractions
import math
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

try:
    import z3
except ImportError:
    z3 = None

from . import core
from .core import Unsupported

REAL_DATETIME = _dt.datetime
REAL_TIMEDELTA = _dt.timedelta
EPOCH = REAL_DATETIME(1970, 1, 1, tzinfo=_dt.timezone.utc)
EPOCH_NAIVE = REAL_DATETIME(1970, 1, 1)


def td_us(td):
    return (td.days * 86400 + td.seconds) * 1_000_000 + td.microseconds


class Sym:
    __slots__ = ()
    _real = object

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        if hasattr(self._real, name):
            raise Unsupported("{}.{} on a symbolic value".format(self._real.__name__, name))
        raise AttributeError(
            "'{}' object has no attribute '{}'".format(self._real.__name__, name)
        )

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        raise Unsupported("hash of a symbolic {}".format(self._real.__name__))

    def __str__(self):
        raise Unsupported("native str() of a symbolic {}".format(self._real.__name__))

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic {}".format(self._real.__name__))

    def __repr__(self):
        return "<sym {}>".format(type(self).__name__)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def is_sym(x):
    return isinstance(x, Sym) if type(x).__mro__[-2:] != () else False


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3 is not None and z3.is_bool(x):
        return x
    raise Unsupported("not a boolean: {!r}".format(x))


def zint(x):
    if type(x) is SymInt:
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if z3.is_int(x):
        return x
    raise Unsupported("not an int: {!r}".format(x))


def frac(x):
    f = fractions.Fraction(x)
    return z3.RealVal("{}/{}".format(f.numerator, f.denominator))


def zreal(x):
    if type(x) is SymReal:
        return x.e
    if type(x) is SymInt:
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.ToReal(zint(x))
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float mixed with symbolic real")
        return frac(x)
    raise Unsupported("not a number: {!r}".format(x))


def is_num(x):
    return isinstance(x, (int, float)) or type(x) in (SymInt, SymReal, SymBool)


def And(*xs):
    if any(isinstance(x, SymBool) for x in xs):
        return SymBool(z3.And(*[zbool(x) for x in xs]))
    return all(bool(x) for x in xs)


def Or(*xs):
    if any(isinstance(x, SymBool) for x in xs):
        return SymBool(z3.Or(*[zbool(x) for x in xs]))
    return any(bool(x) for x in xs)


def Not(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(zbool(a) == zbool(b))
    return bool(a) == bool(b)


def Ite(c, a, b):
    """Numeric if-then-else without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if type(a) is SymTD or type(b) is SymTD:
        return SymTD(z3.If(c.e, SymTD.us_of(a), SymTD.us_of(b)))
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        return SymReal(z3.If(c.e, zreal(a), zreal(b)))
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return SymBool(z3.If(c.e, zbool(a), zbool(b)))
    return SymInt(z3.If(c.e, zint(a), zint(b)))


class SymBool(Sym):
    __slots__ = ("e",)
    _real = bool

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.CTX.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.And(self.e, zbool(o)))
        return SymInt(zint(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == zbool(o))
        if is_num(o):
            return SymInt(zint(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = Sym.__hash__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return SymInt(zint(self)) + o

    def __radd__(self, o):
        return o + SymInt(zint(self))

    def __sub__(self, o):
        return SymInt(zint(self)) - o

    def __mul__(self, o):
        return SymInt(zint(self)) * o

    __rmul__ = __mul__


def _err(e):
    """Rounding of an exact real result to a double, when rounding is modelled."""
    c = core.CTX
    if not getattr(c, "fp", False):
        return e
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        return frac(float(s.as_fraction()))
    name = c.uniq("fp_err")
    d = z3.Real(name)
    u = z3.RealVal("1/9007199254740992")  # 2^-53
    c.add(z3.And(d <= u * z3.If(e >= 0, e, -e), d >= -u * z3.If(e >= 0, e, -e)))
    return e + d


def floor_z(e):
    return z3.ToInt(e)


def ceil_z(e):
    return -z3.ToInt(-e)


def as_integral(e):
    """An int term equal to the real term e, if e is evidently integral."""
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        xs = [as_integral(x) for x in e.children()]
        if any(x is None for x in xs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -xs[0]
        r = xs[0]
        for x in xs[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r * x if k == z3.Z3_OP_MUL else r - x
        return r
    if k == z3.Z3_OP_ITE:
        a, b = as_integral(e.arg(1)), as_integral(e.arg(2))
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    return None


def ite_any(c, a, b):
    """If-then-else of two values of the same kind, or None if they cannot be merged."""
    def kind(x):
        if isinstance(x, bool) or type(x) is SymBool:
            return "b"
        if isinstance(x, float) or type(x) is SymReal:
            return "r"
        if isinstance(x, int) or type(x) is SymInt:
            return "i"
        if type(x) is SymTD or isinstance(x, REAL_TIMEDELTA):
            return "t"
        if type(x) is SymDT or isinstance(x, REAL_DATETIME):
            return "d"
        return None

    k = kind(a)
    if k is None or k != kind(b):
        return None
    if k == "d":
        a, b = SymDT.of(a), SymDT.of(b)
        if (a.off is None) != (b.off is None):
            return None
        if a.off is None:
            return SymDT(z3.If(c.e, a.w, b.w), None)
        if a.tz is not b.tz and (changing(a.tz) or changing(b.tz)):
            # comparisons depend on which zone it is
            return None
        off = a.off if a.off.eq(b.off) else z3.If(c.e, a.off, b.off)
        return SymDT(z3.If(c.e, a.w, b.w), off, a.tz if a.tz is b.tz else None)
    return Ite(c, a, b)


def round_half_even_z(e):
    i = as_integral(z3.simplify(e))
    if i is not None:
        return i
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(
        d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))
    )


def _concrete_int(e):
    s = z3.simplify(e)
    return s.as_long() if z3.is_int_value(s) else None


def _zfloordiv(a, b):
    """Python floor division of z3 ints; b symbolic allowed."""
    c = _concrete_int(b)
    if c is None:
        if core.CTX.decide(SymBool(b == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if core.CTX.decide(SymBool(b > 0)):
            return a / b
        return (-a) / (-b)
    if c == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    return a / b if c > 0 else (-a) / z3.IntVal(-c)


def _zmod(a, b):
    c = _concrete_int(b)
    if c is None:
        if core.CTX.decide(SymBool(b == 0)):
            raise ZeroDivisionError("integer modulo by zero")
        if core.CTX.decide(SymBool(b > 0)):
            return a % b
        return -((-a) % (-b))
    if c == 0:
        raise ZeroDivisionError("integer modulo by zero")
    return a % b if c > 0 else -((-a) % z3.IntVal(-c))


def _cmp(op):
    def f(self, o):
        if type(self) is SymInt and isinstance(o, (int, SymInt, SymBool)):
            return SymBool(op(self.e, zint(o)))
        if is_num(o):
            if type(o) is float and (o != o or o in (float("inf"), float("-inf"))):
                return op(0.0, o)
            return SymBool(op(zreal(self), zreal(o)))
        return NotImplemented

    return f


import operator as _op


class SymNum(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __lt__ = _cmp(_op.lt)
    __le__ = _cmp(_op.le)
    __gt__ = _cmp(_op.gt)
    __ge__ = _cmp(_op.ge)
    __eq__ = _cmp(_op.eq)
    __ne__ = _cmp(_op.ne)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return core.CTX.decide(SymBool(self.e != 0))

    def __pos__(self):
        return self

    def __neg__(self):
        return type(self)(-self.e)

    def __abs__(self):
        return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def _arith(self, o, iop, rop=None):
        """iop on z3 exprs; result int if both int."""
        if type(self) is SymInt and isinstance(o, (int, SymInt, SymBool)):
            return SymInt(iop(self.e, zint(o)))
        if is_num(o):
            return SymReal(_err(iop(zreal(self), zreal(o))))
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, _op.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, _op.sub)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, str):
            return SymStr([("o", ("rep", o, self.e))])
        if isinstance(o, REAL_TIMEDELTA):
            return SymTD(z3.IntVal(td_us(o))) * self
        if type(o) in (SymInt, SymReal) and type(self) in (SymInt, SymReal):
            if not (_const(o.e) or _const(self.e) or getattr(core.CTX, "nonlinear", False)):
                raise Unsupported("symbolic multiplication")
        return self._arith(o, _op.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        d = zreal(o)
        if core.CTX.decide(SymBool(d == 0)):
            raise ZeroDivisionError("division by zero")
        if not _const(d):
            raise Unsupported("symbolic division")
        return SymReal(_err(zreal(self) / d))

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if core.CTX.decide(SymBool(zreal(self) == 0)):
            raise ZeroDivisionError("division by zero")
        raise Unsupported("division by a symbolic value")

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, (int, float)) and o > 0:
            return monotone(("power", o), zreal(self), [(r ** (1 / o), r) for r in POWGRID + [1.0]])
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        # constant ** symbolic: an arbitrary positive real, >= 1 iff exponent >= 0
        if isinstance(o, (int, float)) and o > 1:
            c = core.CTX
            c.approximate = True
            r = z3.Real(c.uniq("pow"))
            x = zreal(self)
            cons = [r > 0, (x >= 0) == (r >= 1)]
            for t in POWGRID:
                g = fractions.Fraction(math.log(t) / math.log(o))
                cons.append((x >= z3.RealVal(str(g))) == (r >= z3.RealVal(str(fractions.Fraction(t)))))
            pows = c.__dict__.setdefault("pows", [])
            for o2, x2, r2 in pows:
                if o2 == o:
                    cons += [(x >= x2) == (r >= r2), (x2 >= x) == (r2 >= r)]
            pows.append((o, x, r))
            c.add(z3.And(*cons))
            return SymReal(r)
        raise Unsupported("symbolic power")


def monotone(key, x, points):
    """An increasing positive function of which only the values at some points
    (pairs of argument and value) and the monotony are known"""
    c = core.CTX
    c.approximate = True
    r = z3.Real(c.uniq("mono"))
    cons = [r > 0]
    for a, v in points:
        cons.append((x >= z3.RealVal(str(fractions.Fraction(a)))) == (r >= z3.RealVal(str(fractions.Fraction(v)))))
    known = c.__dict__.setdefault("monotone", {}).setdefault(key, [])
    for x2, r2 in known:
        cons += [(x >= x2) == (r >= r2), (x2 >= x) == (r2 >= r)]
    known.append((x, r))
    c.add(z3.And(*cons))
    return SymReal(r)


POWGRID = [1.5, 2, 3, 4, 5, 6, 7, 10, 15, 20, 30, 60, 90, 120, 180, 240, 299, 300, 301, 600, 3600, 1e6]


def _const(e):
    s = z3.simplify(e)
    return z3.is_int_value(s) or z3.is_rational_value(s)


class SymInt(SymNum):
    __slots__ = ()
    _real = int

    @property
    def __class__(self):
        return int

    def __floordiv__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymInt(_zfloordiv(self.e, zint(o)))
        if is_num(o):
            return SymReal(self.e) // o
        return NotImplemented

    def __rfloordiv__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymInt(_zfloordiv(zint(o), self.e))
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymInt(_zmod(self.e, zint(o)))
        if is_num(o):
            return SymReal(zreal(self)) % o
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, (int, SymInt)):
            return SymInt(_zmod(zint(o), self.e))
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __rshift__(self, o):
        if isinstance(o, int):
            return SymInt(self.e / z3.IntVal(2**o))
        raise Unsupported("shift by a symbolic amount")

    def __lshift__(self, o):
        if isinstance(o, int):
            return SymInt(self.e * (2**o))
        raise Unsupported("shift by a symbolic amount")

    def __rlshift__(self, o):
        raise Unsupported("shift by a symbolic amount")

    def __and__(self, o):
        if isinstance(o, SymInt):
            c = _concrete_int(o.e)
            if c is None:
                raise Unsupported("symbolic bitwise and")
            o = c
        if not isinstance(o, int) or o < 0:
            raise Unsupported("bitwise and with {!r}".format(o))
        # sum over maximal runs of set bits
        r = z3.IntVal(0)
        i = 0
        while o >> i:
            if (o >> i) & 1:
                j = i
                while (o >> j) & 1:
                    j += 1
                r = r + ((self.e / z3.IntVal(2**i)) % z3.IntVal(2 ** (j - i))) * (2**i)
                i = j
            else:
                i += 1
        return SymInt(r)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int):
            return self + o - (self & o)
        raise Unsupported("symbolic bitwise or")

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and o >= 0:
            return self + o - (self & o) * 2
        raise Unsupported("symbolic xor")

    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __index__(self):
        c = _concrete_int(self.e)
        if c is not None:
            return c
        raise Unsupported("symbolic int used as an index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("native float() of a symbolic int")

    def bit_length(self):
        raise Unsupported("bit_length")

    @property
    def real(self):
        return self

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


class SymReal(SymNum):
    """A float, modelled as a real (optionally with a bounded rounding error)."""

    __slots__ = ()
    _real = float

    @property
    def __class__(self):
        return float

    def __floordiv__(self, o):
        return SymReal(z3.ToReal(floor_z((self / o).e)))

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        d = zreal(o)
        if not _const(d):
            raise Unsupported("modulo a symbolic float")
        q = floor_z(self.e / d)
        return SymReal(_err(self.e - d * z3.ToReal(q)))

    def __rmod__(self, o):
        raise Unsupported("modulo a symbolic float")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __round__(self, n=None):
        if n is None:
            return SymInt(round_half_even_z(self.e))
        return SymReal(z3.ToReal(round_half_even_z(self.e * (10**n))) / (10**n))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, floor_z(self.e), ceil_z(self.e)))

    def __floor__(self):
        return SymInt(floor_z(self.e))

    def __ceil__(self):
        return SymInt(ceil_z(self.e))

    def __float__(self):
        raise Unsupported("native float() of a symbolic float")

    def __int__(self):
        raise Unsupported("native int() of a symbolic float")

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


# ---------------------------------------------------------------------------
# dates


class SymTD(Sym):
    __slots__ = ("e",)
    _real = REAL_TIMEDELTA

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return REAL_TIMEDELTA

    @staticmethod
    def us_of(x):
        if type(x) is SymTD:
            return x.e
        if isinstance(x, REAL_TIMEDELTA):
            return z3.IntVal(td_us(x))
        return None

    def total_seconds(self):
        return SymReal(_err(z3.ToReal(self.e) / 1_000_000))

    @property
    def days(self):
        return SymInt(self.e / 86_400_000_000)

    @property
    def seconds(self):
        return SymInt((self.e % 86_400_000_000) / 1_000_000)

    @property
    def microseconds(self):
        return SymInt(self.e % 1_000_000)

    def _c(op):
        def f(self, o):
            u = SymTD.us_of(o)
            if u is None:
                return NotImplemented
            return SymBool(op(self.e, u))

        return f

    __lt__ = _c(_op.lt)
    __le__ = _c(_op.le)
    __gt__ = _c(_op.gt)
    __ge__ = _c(_op.ge)
    __eq__ = _c(_op.eq)
    __ne__ = _c(_op.ne)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return core.CTX.decide(SymBool(self.e != 0))

    def __add__(self, o):
        u = SymTD.us_of(o)
        if u is not None:
            return SymTD(self.e + u)
        if isinstance(o, REAL_DATETIME) and type(o) is not SymDT:
            return SymDT.of(o) + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        u = SymTD.us_of(o)
        return NotImplemented if u is None else SymTD(self.e - u)

    def __rsub__(self, o):
        u = SymTD.us_of(o)
        if u is not None:
            return SymTD(u - self.e)
        if isinstance(o, REAL_DATETIME) and type(o) is not SymDT:
            return SymDT.of(o) - self
        return NotImplemented

    def __neg__(self):
        return SymTD(-self.e)

    def __abs__(self):
        return SymTD(z3.If(self.e >= 0, self.e, -self.e))

    def __mul__(self, o):
        if isinstance(o, int) and type(o) is not SymInt:
            return SymTD(self.e * o)
        if is_num(o) and (_const(self.e) or not is_sym(o)):
            return SymTD(round_half_even_z(z3.ToReal(self.e) * zreal(o)))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        u = SymTD.us_of(o)
        if u is not None:
            return SymReal(z3.ToReal(self.e)) / SymReal(z3.ToReal(u))
        if is_num(o) and not is_sym(o):
            return SymTD(round_half_even_z(z3.ToReal(self.e) / zreal(o)))
        return NotImplemented

    def __floordiv__(self, o):
        u = SymTD.us_of(o)
        if u is not None:
            return SymInt(_zfloordiv(self.e, u))
        if isinstance(o, int):
            return SymTD(_zfloordiv(self.e, zint(o)))
        return NotImplemented

    def __mod__(self, o):
        u = SymTD.us_of(o)
        return NotImplemented if u is None else SymTD(_zmod(self.e, u))


class SymTZ(Sym):
    """A time zone with a fixed, possibly symbolic, offset (microseconds)."""

    __slots__ = ("off", "name", "trans")
    _real = _dt.tzinfo

    def __init__(self, off, name="TZ", trans=None):
        self.off = off
        self.name = name
        self.trans = trans  # (instant, offset from then on)

    @property
    def __class__(self):
        return _dt.tzinfo

    def utcoffset(self, dt):
        if dt is None:
            return None if self.trans is not None else SymTD(self.off)
        return SymTD(tz_off(self, wall=SymDT.of(dt).w))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return True


def _two_offsets(off, trans, inst, wall, fold=0):
    t, o2 = trans
    if inst is None and wall is None:
        raise Unsupported("offset of a zone at an unknown time")
    if inst is not None:
        before = inst < t
    elif fold:
        before = wall - z3.If(off < o2, off, o2) < t
    else:
        before = wall - off < t
    return z3.If(before, off, o2)


def local_offset(inst=None, wall=None, fold=0):
    """z3 offset of the daemon's local zone."""
    c = core.CTX
    if c.local_trans is None:
        return zint(c.local_off)
    return _two_offsets(zint(c.local_off), tuple(zint(x) for x in c.local_trans), inst, wall, fold)


def tz_off(tz, inst=None, wall=None, fold=0):
    """z3 offset (microseconds) of a tzinfo, or of local time for None, at an
    instant or a wall clock time (the earlier one if it occurs twice)."""
    if tz is None:
        return local_offset(inst, wall, fold)
    if type(tz) is SymTZ:
        if tz.trans is not None:
            return _two_offsets(zint(tz.off), tuple(zint(x) for x in tz.trans), inst, wall, fold)
        return tz.off
    if isinstance(tz, _dt.timezone):
        return z3.IntVal(td_us(tz.utcoffset(None)))
    name = type(tz).__name__
    if name == "tzoffset":
        return z3.IntVal(td_us(tz.utcoffset(None)))
    if name == "tzutc":
        return z3.IntVal(0)
    if name == "tzlocal":
        return local_offset(inst, wall, fold)
    raise Unsupported("time zone {!r}".format(tz))


def changing(tz):
    """Whether a zone's offset may change."""
    if type(tz) is SymTZ:
        return tz.trans is not None
    return type(tz).__name__ == "tzlocal" and core.CTX.local_trans is not None


class SymDT(Sym):
    """A datetime: wall clock microseconds w and UTC offset off (None: naive)."""

    __slots__ = ("w", "off", "tz")
    _real = REAL_DATETIME

    def __init__(self, w, off, tz=None):
        self.w = w
        self.off = off
        self.tz = tz

    @property
    def __class__(self):
        return REAL_DATETIME

    @staticmethod
    def of(x):
        if type(x) is SymDT:
            return x
        if isinstance(x, REAL_DATETIME):
            if x.tzinfo is None:
                return SymDT(z3.IntVal(td_us(x - EPOCH_NAIVE)), None)
            off = td_us(x.utcoffset())
            return SymDT(
                z3.IntVal(td_us(x - EPOCH) + off), z3.IntVal(off), x.tzinfo
            )
        return None

    @property
    def tzinfo(self):
        if self.off is None:
            return None
        return self.tz if self.tz is not None else SymTZ(self.off)

    def utcoffset(self):
        return None if self.off is None else SymTD(self.off)

    @property
    def inst(self):
        off = self.off if self.off is not None else local_offset(wall=self.w)
        return self.w - off

    def us(self):
        """Instant as a SymInt of microseconds since the epoch."""
        return SymInt(self.inst)

    def timestamp(self):
        return SymReal(_err(z3.ToReal(self.inst) / 1_000_000))

    def astimezone(self, tz=None):
        if tz is not None and not isinstance(tz, _dt.tzinfo):
            raise TypeError("tzinfo argument must be None or of a tzinfo subclass")
        off = tz_off(tz, inst=self.inst)
        return SymDT(self.inst + off, off, tz)

    def replace(self, **kw):
        r = SymDT(self.w, self.off, self.tz)
        for k, v in kw.items():
            if k == "tzinfo":
                if v is None:
                    r.off, r.tz = None, None
                else:
                    r.off, r.tz = tz_off(v, wall=r.w), v
            elif k == "microsecond" and v == 0:
                r.w = r.w - r.w % 1_000_000
            elif k == "fold":
                if r.off is not None and r.tz is not None:
                    if isinstance(v, Sym):
                        v = int(bool(v == 1))
                    r.off = tz_off(r.tz, wall=r.w, fold=v)
            elif k in ("year", "month", "day"):
                if not {"year", "month", "day"} <= set(kw) or any(isinstance(kw[x], Sym) for x in ("year", "month", "day")):
                    raise Unsupported("datetime.replace({}=)".format(k))
                if k == "day":
                    d = td_us(REAL_DATETIME(kw["year"], kw["month"], kw["day"]) - EPOCH_NAIVE)
                    r.w = r.w % 86400_000_000 + d
            elif k in ("hour", "minute", "second", "microsecond") and type(v) in (int, SymInt):
                unit = {"hour": 3600 * 10**6, "minute": 60 * 10**6, "second": 10**6, "microsecond": 1}[k]
                r.w = r.w + (zint(v) - zint(getattr(r, k))) * unit
                if r.off is not None and r.tz is not None:
                    r.off = tz_off(r.tz, wall=r.w)
            else:
                raise Unsupported("datetime.replace({}=)".format(k))
        return r

    @property
    def microsecond(self):
        return SymInt(self.w % 1_000_000)

    @property
    def second(self):
        return SymInt((self.w / 1_000_000) % 60)

    @property
    def minute(self):
        return SymInt((self.w / 60_000_000) % 60)

    @property
    def hour(self):
        return SymInt((self.w / 3_600_000_000) % 24)

    def _c(op):
        def f(self, o):
            o = SymDT.of(o)
            if o is None:
                return NotImplemented
            if (self.off is None) != (o.off is None):
                if op is _op.eq:
                    return False
                if op is _op.ne:
                    return True
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            # same time zone object: the wall clocks are compared
            if self.off is None or (self.tz is not None and self.tz is o.tz):
                return SymBool(op(self.w, o.w))
            return SymBool(op(self.inst, o.inst))

        return f

    __lt__ = _c(_op.lt)
    __le__ = _c(_op.le)
    __gt__ = _c(_op.gt)
    __ge__ = _c(_op.ge)
    __eq__ = _c(_op.eq)
    __ne__ = _c(_op.ne)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return True

    def _moved(self, w):
        """Wall clock arithmetic."""
        if core.CTX.date_range and not core.CTX.decide(SymBool(z3.And(w >= -62135596800 * 10**6, w < 253402300800 * 10**6))):
            raise OverflowError("date value out of range")
        off = self.off
        if off is not None and self.tz is not None:
            off = tz_off(self.tz, wall=w)
        return SymDT(w, off, self.tz)

    def __add__(self, o):
        u = SymTD.us_of(o)
        return NotImplemented if u is None else self._moved(self.w + u)

    __radd__ = __add__

    def __sub__(self, o):
        u = SymTD.us_of(o)
        if u is not None:
            return self._moved(self.w - u)
        d = SymDT.of(o)
        if d is None:
            return NotImplemented
        if (self.off is None) != (d.off is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        if self.off is None or (self.tz is not None and self.tz is d.tz):
            return SymTD(self.w - d.w)
        return SymTD(self.inst - d.inst)

    def __rsub__(self, o):
        d = SymDT.of(o)
        return NotImplemented if d is None else d - self

    def isoformat(self, *a, **k):
        return SymStr([("dt", self)])

    def strftime(self, f):
        return SymStr([("o", ("strftime", f, id(self)))])


# ---------------------------------------------------------------------------
# strings


WHITE = "".join(chr(i) for i in range(0x3001) if chr(i).isspace())


def _runs(text):
    """The characters of a constant text, as ranges of code points."""
    out = []
    for c in sorted(set(map(ord, text))):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


class SymStr(Sym):
    """A string as a list of pieces.

    ('c', str) constant; ('z', z3 String); ('d', z3 Int) decimal rendering of an
    int; ('r', z3 Real) rendering of a float; ('dt', SymDT) rendering of a
    datetime; ('td', z3 Int) rendering of a timedelta; ('o', key) opaque text.
    """

    __slots__ = ("p", "safe")
    _real = str

    def __init__(self, pieces):
        out = []
        for k, v in pieces:
            if k == "c":
                if v == "":
                    continue
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + v)
                    continue
            out.append((k, v))
        self.p = out
        self.safe = False  # HTML (jinja2's Markup)

    @property
    def __class__(self):
        return str

    @staticmethod
    def var(e):
        return SymStr([("z", e)])

    @staticmethod
    def pieces(x):
        if type(x) is SymStr:
            return x.p
        if isinstance(x, str):
            return [("c", x if type(x) is str else str.__str__(x))]
        return None

    def conc(self):
        """The concrete str if there is nothing symbolic, else None."""
        if not self.p:
            return ""
        if len(self.p) == 1 and self.p[0][0] == "c":
            return self.p[0][1]
        return None

    def z(self):
        es = []
        for k, v in self.p:
            if k == "c":
                es.append(z3.StringVal(v))
            elif k == "z":
                es.append(v)
            elif k == "u":
                # z3 knows the characters of the first three planes
                if core.CTX.possible(SymBool(v >= 0x30000)):
                    raise Unsupported("a character of the upper planes as a z3 string")
                es.append(z3.StrFromCode(v))
            elif k == "d":
                es.append(
                    z3.If(
                        v >= 0,
                        z3.IntToStr(v),
                        z3.Concat(z3.StringVal("-"), z3.IntToStr(-v)),
                    )
                )
            else:
                raise Unsupported("text of an opaque string piece is needed ({})".format(k))
        if not es:
            return z3.StringVal("")
        return es[0] if len(es) == 1 else z3.Concat(*es)

    def __add__(self, o):
        p = SymStr.pieces(o)
        return NotImplemented if p is None else mkstr(self.p + p)

    def __radd__(self, o):
        p = SymStr.pieces(o)
        return NotImplemented if p is None else mkstr(p + self.p)

    def __mul__(self, n):
        if isinstance(n, int) and type(n) is not SymInt:
            return mkstr(self.p * n)
        raise Unsupported("string repeat")

    __rmul__ = __mul__

    def __eq__(self, o):
        if o is self:
            return True
        p = SymStr.pieces(o)
        if p is None:
            return NotImplemented
        return str_eq(self.p, p)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = Sym.__hash__

    def _zo(self, o):
        return (o if type(o) is SymStr else SymStr([("c", o)])).z()

    def __lt__(self, o):
        if SymStr.pieces(o) is None:
            return NotImplemented
        return SymBool(self.z() < self._zo(o))

    def __gt__(self, o):
        if SymStr.pieces(o) is None:
            return NotImplemented
        return SymBool(self._zo(o) < self.z())

    def __le__(self, o):
        if SymStr.pieces(o) is None:
            return NotImplemented
        return SymBool(self.z() <= self._zo(o))

    def __ge__(self, o):
        if SymStr.pieces(o) is None:
            return NotImplemented
        return SymBool(self._zo(o) <= self.z())

    def len(self):
        if all(k in ("c", "u") for k, _ in self.p):
            return sum(len(v) if k == "c" else 1 for k, v in self.p)
        if all(k in ("c", "z", "d") for k, _ in self.p) and any(k == "z" for k, _ in self.p):
            return SymInt(z3.Length(self.z()))
        return SymInt(z3.Sum([_piece_len(k, v) for k, v in self.p]))

    def __len__(self):
        n = self.len()
        if type(n) is SymInt:
            raise Unsupported("native len() of a symbolic string")
        return n

    def chars(self):
        """The characters if their number is known, else None."""
        if not all(k in ("c", "u") for k, _ in self.p):
            return None
        out = []
        for k, v in self.p:
            out += [("c", ch) for ch in v] if k == "c" else [(k, v)]
        return out

    def find_char(self, sub, start=0):
        """First position of a constant text in a text of known length."""
        cs = self.chars()
        for i in range(start, len(cs) - len(sub) + 1):
            if all(_is_char(cs[i + j], ch) is not False for j, ch in enumerate(sub)):
                if And(*[_is_char(cs[i + j], ch) for j, ch in enumerate(sub)]):
                    return i
        return -1

    def __bool__(self):
        if any(k in ("d", "r", "dt", "td", "u") or (k == "c" and v) for k, v in self.p):
            return True
        if not self.p:
            return False
        return core.CTX.decide(SymBool(z3.Length(self.z()) > 0))

    def __contains__(self, o):
        p = SymStr.pieces(o)
        if p is None:
            raise TypeError("'in <string>' requires string as left operand")
        if self.conc() is not None and all(k == "c" for k, _ in p):
            return "".join(v for _, v in p) in self.conc()
        if all(k == "c" for k, _ in p) and self.chars() is not None:
            return self.find_char("".join(v for _, v in p)) >= 0
        if p and p[0][0] == "c" and len(p) == 1:
            n = p[0][1]
            if any(k == "c" and n in v for k, v in self.p):
                return True
            if not any(ch.isdigit() or ch == "-" for ch in n) and all(
                k in ("c", "d") for k, _ in self.p
            ):
                return False
        hay = self.conc()
        if hay is not None and len(p) == 1 and p[0][0] in "uz":
            # one character looked up in a constant text
            k, v = p[0]
            if k == "u":
                return core.CTX.decide(SymBool(z3.Or(*[z3.And(v >= a, v <= b) for a, b in _runs(hay)])))
            if v.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(v.arg(2)) and v.arg(2).as_long() == 1:
                rs = [z3.Range(chr(a), chr(b)) for a, b in _runs(hay)] + [z3.Re("")]
                return core.CTX.decide(SymBool(z3.InRe(v, rs[0] if len(rs) == 1 else z3.Union(*rs))))
        return core.CTX.decide(SymBool(z3.Contains(self.z(), self._zo(o))))

    def startswith(self, pre, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(pre, tuple):
            return any(self.startswith(x) for x in pre)
        if isinstance(pre, str) and type(pre) is not SymStr and self.p and self.p[0][0] == "c":
            c = self.p[0][1]
            if len(c) >= len(pre) or not pre.startswith(c):
                return c.startswith(pre)
        if isinstance(pre, str) and type(pre) is not SymStr:
            rest = pre
            for k, v in self.p:
                if not rest:
                    return True
                if k == "d" and rest[0] not in "-0123456789":
                    return False
                if k != "c" or not rest.startswith(v):
                    if k == "c":
                        return v.startswith(rest)
                    break
                rest = rest[len(v):]
        return SymBool(z3.PrefixOf(self._zo(pre), self.z()))

    def endswith(self, suf, *a):
        if a:
            raise Unsupported("endswith with bounds")
        if isinstance(suf, tuple):
            return any(self.endswith(x) for x in suf)
        if isinstance(suf, str) and type(suf) is not SymStr and self.p and self.p[-1][0] == "c":
            c = self.p[-1][1]
            if len(c) >= len(suf) or not suf.endswith(c):
                return c.endswith(suf)
        if isinstance(suf, str) and type(suf) is not SymStr and suf and self.p and self.p[-1][0] == "d":
            if suf[-1] not in "0123456789":
                return False
        return SymBool(z3.SuffixOf(self._zo(suf), self.z()))

    def removeprefix(self, pre):
        if self.startswith(pre):
            return self[len(pre):]
        return self

    def find(self, sub, *a):
        if a:
            raise Unsupported("find with bounds")
        return SymInt(z3.IndexOf(self.z(), self._zo(sub), 0))

    def index(self, sub):
        r = self.find(sub)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub):
        return SymInt(z3.LastIndexOf(self.z(), self._zo(sub)))

    def _norm(self, i, n):
        if isinstance(i, int) and type(i) is not SymInt:
            return z3.IntVal(i) if i >= 0 else z3.If(n + i >= 0, n + i, z3.IntVal(0))
        i = zint(i)
        return z3.If(i >= 0, i, z3.If(n + i >= 0, n + i, z3.IntVal(0)))

    def __getitem__(self, k):
        cs = self.chars()
        if cs is not None:
            from . import rt

            n = len(cs)
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("string slice step")
                return mkstr(cs[rt._pick_bound(k.start, n, 0) : rt._pick_bound(k.stop, n, n)])
            if isinstance(k, Sym):
                k = rt._gi_(list(range(n)), k)
            return mkstr([cs[k]])
        if isinstance(k, slice) and k.step in (None, 1) and all(x in ("c", "d", "u") for x, _ in self.p):
            a, b = 0 if k.start is None else k.start, k.stop
            if type(a) is int and a >= 0 and (b is None or type(b) is int and b >= 0):
                head = self._head(a if b is None else b)
                if head is not None:
                    cs, rest = head
                    return mkstr(cs[a:] + rest if b is None else cs[a:b])
        e = self.z()
        n = z3.Length(e)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("string slice step")
            a = self._norm(0 if k.start is None else k.start, n)
            b = n if k.stop is None else self._norm(k.stop, n)
            b = z3.If(b > n, n, b)
            ln = z3.If(b - a > 0, b - a, z3.IntVal(0))
            # z3: extract of an out of range offset is the empty string
            return SymStr.var(z3.simplify(z3.SubString(e, a, ln)))
        if core.CTX.decide(SymBool(z3.And(zint(k) >= -n, zint(k) < n))):
            return SymStr.var(z3.SubString(e, self._norm(k, n), 1))
        raise IndexError("string index out of range")

    def _head(self, n):
        """The first n characters and the remaining pieces."""
        cs, i = [], 0
        while len(cs) < n and i < len(self.p):
            k, v = self.p[i]
            i += 1
            if k == "c":
                cs += [("c", ch) for ch in v]
                continue
            if k == "u":
                cs.append((k, v))
                continue
            if core.CTX.decide(SymBool(v < 0)):
                return None
            for w in range(1, 6):
                if core.CTX.decide(SymBool(v < 10 ** w)):
                    break
            else:
                return None
            cs += [("u", 48 + (v / 10 ** (w - 1 - j)) % 10) for j in range(w)]
        return cs, self.p[i:]

    def __iter__(self):
        if all(k == "c" for k, _ in self.p):
            yield from "".join(v for _, v in self.p)
            return
        cs = self.chars()
        if cs is not None:
            for c in cs:
                yield mkstr([c])
            return
        # peel off one character after the other: text = c0 + c1 + ... + rest
        rest = self.z()
        while core.CTX.decide(SymBool(z3.Length(rest) > 0)):
            c, tail = z3.FreshInt("char"), z3.FreshConst(z3.StringSort(), "rest")
            core.CTX.add(z3.And(c >= 0, c <= 0x2FFFF, rest == z3.Concat(z3.StrFromCode(c), tail)))
            yield SymStr([("u", c)])
            rest = tail

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit >= 0 or not all(k in ("c", "d") for k, _ in self.p):
                raise Unsupported("split() on whitespace")
            # numbers hold no white space
            out, cur = [], []
            for k, v in self.p:
                for ch in v if k == "c" else [v]:
                    if k == "c" and ch.isspace():
                        if cur:
                            out.append(mkstr(cur))
                        cur = []
                    else:
                        cur.append((k, ch))
            if cur:
                out.append(mkstr(cur))
            return out
        if (
            self.p
            and all(k in ALPHABET for k, _ in self.p)
            and isinstance(sep, str)
            and type(sep) is not SymStr
            and not any(ch in ALPHABET[k] for k, _ in self.p for ch in sep)
        ):
            # separators can only occur inside the constant pieces
            out, cur = [], []
            n = 0
            for k, v in self.p:
                if k != "c":
                    cur.append((k, v))
                    continue
                parts = v.split(sep) if maxsplit < 0 else v.split(sep, maxsplit - n)
                for j, part in enumerate(parts):
                    if j:
                        out.append(mkstr(cur))
                        cur = []
                        n += 1
                    cur.append(("c", part))
            out.append(mkstr(cur))
            return out
        if len(self.p) == 1 and self.p[0][0] in ("dt", "td") and sep == ".":
            k, v = self.p[0]
            return _Head([SymStr([("o", ("head of", k, v.w.hash() if k == "dt" else v.hash()))])])
        out = []
        rest = self
        if self.chars() is not None and isinstance(sep, str) and type(sep) is not SymStr:
            cs, at = self.chars(), 0
            while maxsplit < 0 or len(out) < maxsplit:
                i = self.find_char(sep, at)
                if i < 0:
                    break
                out.append(mkstr(cs[at:i]))
                at = i + len(sep)
            out.append(mkstr(cs[at:]))
            return out
        while maxsplit < 0 or len(out) < maxsplit:
            e = rest.z()
            s = self._zo(sep)
            if not core.CTX.decide(SymBool(z3.Contains(e, s))):
                break
            i = z3.IndexOf(e, s, 0)
            ls = z3.Length(s)
            out.append(SymStr.var(z3.SubString(e, 0, i)))
            rest = SymStr.var(z3.SubString(e, i + ls, z3.Length(e) - i - ls))
        out.append(rest)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("rsplit() on whitespace")
        if maxsplit < 0:
            return self.split(sep)
        out = []
        rest = self
        while len(out) < maxsplit:
            if type(rest) is not SymStr:
                return rest.rsplit(sep, maxsplit - len(out)) + out
            k, v = rest.p[-1]
            if k == "c" and isinstance(sep, str) and type(sep) is not SymStr and sep and sep in v:
                i = v.rindex(sep)
                out.insert(0, v[i + len(sep):])
                rest = mkstr(rest.p[:-1] + [("c", v[:i])])
                continue
            e = rest.z()
            s = self._zo(sep)
            if not core.CTX.decide(SymBool(z3.Contains(e, s))):
                break
            i = z3.LastIndexOf(e, s)
            ls = z3.Length(s)
            out.insert(0, SymStr.var(z3.SubString(e, i + ls, z3.Length(e) - i - ls)))
            rest = SymStr.var(z3.SubString(e, 0, i))
        out.insert(0, rest)
        return out

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (r[0], "", "")

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ("", "", r[0])

    def join(self, it):
        return str_join(self, it)

    def _case(self, f):
        if all(k in ("c", "d") for k, _ in self.p):
            return mkstr([(k, f(v) if k == "c" else v) for k, v in self.p])
        lim = 16
        out = []
        for k, v in self.p:
            if k in ("c", "d"):
                out.append((k, f(v) if k == "c" else v))
                continue
            if k == "u":
                one, n = v, 1
            elif k == "z":
                one, n = v, lim
                if core.CTX.possible(SymBool(z3.Length(v) > lim)):
                    raise Unsupported("case conversion of a symbolic string")
            else:
                raise Unsupported("case conversion of a symbolic string")
            out += self._case_z(k, one, n, f)
        return mkstr(out)

    @staticmethod
    def _case_z(k, e, n, f):
        """Text of at most n characters, converted character by character."""
        if k == "u":
            if core.CTX.possible(SymBool(e > 127)) and core.CTX.decide(SymBool(e > 127)):
                raise Unsupported("case conversion of a symbolic string")
            if core.CTX.possible(SymBool(e > 57)):
                lo, hi, d = (97, 122, -32) if f is str.upper else (65, 90, 32)
                e = z3.If(z3.And(e >= lo, e <= hi), e + d, e)
            return [("u", e)]
        ascii_only = z3.InRe(e, z3.Star(z3.Range(chr(0), chr(127))))
        if not core.CTX.decide(SymBool(ascii_only)):
            raise Unsupported("case conversion of a symbolic string")
        lo, hi, d = (97, 122, -32) if f is str.upper else (65, 90, 32)
        out = z3.StringVal("")
        for i in range(n - 1, -1, -1):
            ch = z3.SubString(e, i, 1)
            code = z3.StrToCode(ch)
            ch = z3.If(z3.And(code >= lo, code <= hi), z3.StrFromCode(code + d), ch)
            out = z3.Concat(ch, out) if i < n - 1 else ch
        return SymStr.var(out).p

    def upper(self):
        return self._case(str.upper)

    def lower(self):
        return self._case(str.lower)

    def casefold(self):
        return self._case(str.casefold)

    def _trim(self, chars, left):
        """Without the leading (trailing) characters of the set (None: white space)."""
        if type(chars) is SymStr:
            chars = chars.conc()
            if chars is None:
                raise Unsupported("strip of symbolic characters")
        ws = WHITE if chars is None else chars
        p = list(self.p)
        at = 0 if left else -1
        while p:
            k, v = p[at]
            if k == "c":
                t = v.lstrip(ws) if left else v.rstrip(ws)
                p[at] = ("c", t)
                if t:
                    break
            elif k == "u":
                if not ws or not core.CTX.decide(SymBool(z3.Or(*[v == ord(ch) for ch in ws]))):
                    break
            elif k in ("d", "r", "td", "dt"):
                if any(ch in "0123456789.-+:TZ ed" for ch in ws) and ws is not WHITE:
                    raise Unsupported("strip of the characters of a number")
                break
            elif k == "z":
                if not ws:
                    break
                one = z3.Union(*[z3.Re(z3.StringVal(ch)) for ch in ws]) if len(ws) > 1 else z3.Re(z3.StringVal(ws))
                any_ = z3.Full(z3.ReSort(z3.StringSort()))
                edge = z3.Concat(one, any_) if left else z3.Concat(any_, one)
                c = core.CTX
                if not c.decide(SymBool(z3.InRe(v, edge))):
                    if c.decide(SymBool(z3.Length(v) > 0)):
                        break
                else:
                    off, rest = z3.String(c.uniq("white")), z3.String(c.uniq("rest"))
                    c.constrain(
                        z3.And(
                            v == (z3.Concat(off, rest) if left else z3.Concat(rest, off)),
                            z3.InRe(off, z3.Plus(one)),
                            z3.Not(z3.InRe(rest, edge)),
                        )
                    )
                    p[at] = ("z", rest)
                    if c.decide(SymBool(z3.Length(rest) > 0)):
                        break
            else:
                raise Unsupported("strip of a symbolic string")
            p.pop(at)
        return mkstr(p)

    def lstrip(self, chars=None):
        return self._trim(chars, True)

    def rstrip(self, chars=None):
        return self._trim(chars, False)

    def strip(self, chars=None):
        r = self._trim(chars, True)
        return r._trim(chars, False) if type(r) is SymStr else r.rstrip(chars)

    def replace(self, a, b, n=-1):
        if n == -1 and all(k in ("c", "d") for k, _ in self.p) and not any(
            ch.isdigit() or ch == "-" for ch in a
        ):
            return mkstr([(k, v.replace(a, b) if k == "c" else v) for k, v in self.p])
        if n == -1 and a and self.chars() is not None and isinstance(a, str) and type(a) is not SymStr:
            return str_join(b, self.split(a))
        e = self.z()
        if n == -1:
            # bounded: at most the occurrences the string can hold
            for _ in range(64):
                if not core.CTX.decide(SymBool(z3.Contains(e, self._zo(a)))):
                    return SymStr.var(e)
                if isinstance(b, str) and isinstance(a, str) and a in b:
                    raise Unsupported("replace with overlapping text")
                e = z3.Replace(e, self._zo(a), self._zo(b))
        raise Unsupported("replace on a symbolic string")

    def encode(self, encoding="utf-8", errors="strict"):
        if any(k == "u" for k, _ in self.p):
            if encoding.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
                raise Unsupported("encoding symbolic characters as {} {}".format(encoding, errors))
            for k, v in self.p:
                if k == "u" and core.CTX.decide(SymBool(z3.And(v >= 0xD800, v <= 0xDFFF))):
                    raise UnicodeEncodeError("utf-8", "\udc80", 0, 1, "surrogates not allowed")
        return SymBytes(self)

    def format(self, *a, **k):
        c = self.conc()
        if c is None:
            return self._pad_to(a, k)
        return str_format(c, a, k)

    def _pad_to(self, a, k):
        """'{:^N}' for a symbolic N."""
        p = self.p
        if len(p) != 3 or p[0] not in (("c", "{:^"), ("c", "{:<"), ("c", "{:>")) or p[1][0] != "d" or p[2] != ("c", "}") or len(a) != 1 or k or SymStr.pieces(a[0]) is None:
            raise Unsupported("format on a symbolic template")
        w = p[1][1]
        n = a[0].len() if type(a[0]) is SymStr else len(a[0])
        gap = zint(w - (n.e if type(n) is SymInt else n))
        gap = z3.If(gap > 0, gap, 0)
        left = {"<": z3.IntVal(0), ">": gap, "^": gap / 2}[p[0][1][2]]
        rep = lambda e: ("o", ("rep", " ", z3.simplify(e)))
        return mkstr([rep(left)] + SymStr.pieces(a[0]) + [rep(gap - left)])

    def isdigit(self):
        return re_match("fullmatch", r"[0-9]+", self) is not None

    def isascii(self):
        return True

    def ljust(self, n, ch=" "):
        return SymStr([("o", ("ljust", id(self)))])

    def __str__(self):
        c = self.conc()
        if c is not None:
            return c
        raise Unsupported("native str() of a symbolic string")

    def __fspath__(self):
        raise Unsupported("symbolic path used natively")

    def __repr__(self):
        return "<symstr {}>".format(
            "".join(v if k == "c" else "{" + k + "}" for k, v in self.p)
        )


class _Head(list):
    """The parts of a text of which only the first is known to exist."""

    def __len__(self):
        raise Unsupported("number of parts of a time")

    def __getitem__(self, i):
        if i != 0:
            raise Unsupported("later parts of a time")
        return list.__getitem__(self, 0)

    def __iter__(self):
        raise Unsupported("later parts of a time")


def _is_char(p, ch):
    k, v = p
    return v == ch if k == "c" else SymBool(v == ord(ch))


# characters which the rendering of a piece may hold
ALPHABET = {"c": "", "d": "-0123456789", "r": "-0123456789.e+infa", "dt": "-0123456789:.+ T"}


def _piece_len(k, v):
    """Length of a piece; of renderings some value depending on what is shown."""
    if k == "c":
        return z3.IntVal(len(v))
    if k == "d":
        a = z3.If(v < 0, -v, v)
        if not core.CTX.possible(SymBool(a >= 10**20)):
            return z3.If(v < 0, 2, 1) + z3.Sum([z3.If(a >= 10**i, 1, 0) for i in range(1, 20)])
    if k in ("z", "d"):
        return z3.Length(SymStr([(k, v)]).z())
    if k == "u":
        return z3.IntVal(1)
    if k == "r":
        n, lo, hi = z3.Function("len_of_float", z3.RealSort(), z3.IntSort())(v), 3, 24
    elif k == "td":
        n, lo, hi = z3.Function("len_of_td", z3.IntSort(), z3.IntSort())(v), 7, 40
    elif k == "dt":
        off = z3.IntVal(-1) if v.off is None else v.off
        n, lo, hi = z3.Function("len_of_dt", z3.IntSort(), z3.IntSort(), z3.IntSort())(v.w, off), 19, 35
    elif k == "o" and isinstance(v, tuple) and v[0] == "rep":
        return z3.If(v[2] > 0, v[2] * len(v[1]), 0)
    else:
        n, lo, hi = z3.Int("len_of_{}".format(abs(hash(v)))), 0, 1000
    core.CTX.add(z3.And(n >= lo, n <= hi))
    return n


def mkstr(pieces):
    s = SymStr(pieces)
    c = s.conc()
    return s if c is None else c


def _num_eq(kind, v, text):
    """Does the rendering of number v equal the constant text?"""
    try:
        n = int(text) if kind == "d" else float(text)
    except ValueError:
        return z3.BoolVal(False)
    if kind == "d":
        if str(n) != text:
            return z3.BoolVal(False)
        return v == n
    if str(n) != text:
        return z3.BoolVal(False)
    return v == frac(n)


def str_eq(p, q):
    p = SymStr(p).p
    q = SymStr(q).p
    if all(k == "c" for k, _ in p) and all(k == "c" for k, _ in q):
        return "".join(v for _, v in p) == "".join(v for _, v in q)
    if all(k in ("c", "u") for k, _ in p + q):
        a, b = SymStr(p).chars(), SymStr(q).chars()
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if x[0] == "c":
                x, y = y, x
            r = x[1] == y[1] if x[0] == y[0] == "c" else _is_char(x, y[1]) if y[0] == "c" else SymBool(x[1] == y[1])
            if r is False:
                return False
            conds.append(r)
        return And(*conds)
    hard = any(k not in ("c", "z", "d") for k, _ in p + q)
    same_shape = len(p) == len(q) and all(
        a[0] == b[0] and (a[0] != "c" or a[1] == b[1]) for a, b in zip(p, q)
    )
    if same_shape:
        nz = [i for i, (k, _) in enumerate(p) if k != "c"]
        # adjacent or digit-bordering variable pieces make the split ambiguous
        ok = True
        if any(p[i][0] == "z" for i in nz):
            ok = len(nz) == 1
        else:
            for i in nz:
                for j in (i - 1, i + 1):
                    if 0 <= j < len(p):
                        if p[j][0] != "c":
                            ok = False
                        else:
                            ch = p[j][1][-1 if j < i else 0]
                            if ch.isdigit() or ch in "-.e+":
                                ok = False
        if ok or hard:
            conds = []
            for a, b in zip(p, q):
                k = a[0]
                if k == "c":
                    continue
                if k in ("z", "d", "r", "td"):
                    conds.append(a[1] == b[1])
                elif k == "dt":
                    r = a[1] == b[1]
                    conds.append(zbool(r))
                    # renderings also show the offset
                    if a[1].off is not None and b[1].off is not None:
                        conds.append(a[1].off == b[1].off)
                elif k == "o":
                    if a[1] != b[1]:
                        if hard:
                            raise Unsupported("comparing opaque text")
            if not conds:
                return True
            return SymBool(z3.And(*conds))
    if not hard:
        # literal prefixes/suffixes that differ
        if p and q and p[0][0] == "c" and q[0][0] == "c":
            a, b = p[0][1], q[0][1]
            n = min(len(a), len(b))
            if a[:n] != b[:n]:
                return False
        if len(p) == 1 and p[0][0] in "d" and len(q) == 1 and q[0][0] == "c":
            return SymBool(_num_eq("d", p[0][1], q[0][1]))
        if len(q) == 1 and q[0][0] in "d" and len(p) == 1 and p[0][0] == "c":
            return SymBool(_num_eq("d", q[0][1], p[0][1]))
        return SymBool(SymStr(p).z() == SymStr(q).z())
    # opaque against something else
    for a, b in ((p, q), (q, p)):
        if len(a) == 1 and a[0][0] == "r":
            if len(b) == 1 and b[0][0] == "c":
                return SymBool(_num_eq("r", a[0][1], b[0][1]))
            if len(b) == 1 and b[0][0] == "d":
                return False  # floats always render with '.', 'e', inf or nan
            if not b:
                return False
        if len(a) == 1 and a[0][0] in ("dt", "td") and (not b or (len(b) == 1 and b[0][0] in "rd")):
            return False
        if len(a) == 1 and a[0][0] in ("dt", "td") and len(b) == 1 and b[0][0] == "c" and len(b[0][1]) < 7:
            return False
    raise Unsupported("comparing opaque strings {!r} {!r}".format(SymStr(p), SymStr(q)))


def to_str_pieces(v):
    """Pieces of str(v)."""
    if type(v) is SymStr:
        return v.p
    if type(v) is SymInt:
        return [("d", v.e)]
    if type(v) is SymReal:
        return [("r", v.e)]
    if type(v) is SymDT:
        return [("o", ("dtstr", id(v)))] if v.off is None else [("dt", v)]
    if type(v) is SymTD:
        return [("td", v.e)]
    if type(v) is SymBool:
        return [("c", "True" if v else "False")]
    if isinstance(v, (list, tuple, dict)) and contains_sym(v):
        return [("o", ("repr", id(v)))]
    if isinstance(v, BaseException) and contains_sym(v.args):
        if len(v.args) == 1:
            return to_str_pieces(v.args[0])
        return [("o", ("exc", id(v)))]
    if isinstance(v, Sym):
        return [("o", ("sym", id(v)))]
    return [("c", str(v))]


def contains_sym(v, depth=4):
    if isinstance(v, Sym):
        return True
    if depth == 0:
        return False
    t = type(v)
    if t in (list, tuple):
        return any(contains_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        if isinstance(v, SDict) and v._log is not None:
            return True
        return any(contains_sym(x, depth - 1) for x in dict.values(v))
    return False


def str_join(sep, it):
    out = []
    first = True
    sp = SymStr.pieces(sep)
    for x in it:
        p = SymStr.pieces(x)
        if p is None:
            raise TypeError("sequence item: expected str instance, {} found".format(type(x).__name__))
        if not first:
            out += sp
        out += p
        first = False
    return mkstr(out)


import string as _string

_FMT = _string.Formatter()


def _field(name, args, kwargs, auto):
    import _string as _s

    first, rest = _s.formatter_field_name_split(name)
    if first == "":
        first = auto[0]
        auto[0] += 1
    obj = args[first] if isinstance(first, int) else kwargs[first]
    for is_attr, i in rest:
        obj = getattr(obj, i) if is_attr else obj[i]
    return obj


def fmt_value(obj, conv, spec):
    if not contains_sym(obj) and not isinstance(obj, BaseException):
        if conv == "r":
            obj = repr(obj)
        elif conv == "s":
            obj = str(obj)
        elif conv == "a":
            obj = ascii(obj)
        if type(spec) is SymStr:
            return [("o", ("fmt", id(obj)))]
        return [("c", format(obj, spec))]
    if conv in ("r", "a"):
        if type(obj) is SymInt:
            return [("d", obj.e)]
        return [("o", ("repr", id(obj)))]
    if spec == "" or (spec == "d" and type(obj) is SymInt):
        return to_str_pieces(obj)
    return [("o", ("fmt", id(obj), str(spec) if not isinstance(spec, Sym) else "?"))]


def str_format(tmpl, args, kwargs):
    if not contains_sym(list(args)) and not contains_sym(list(kwargs.values())) and not any(
        isinstance(a, BaseException) for a in args
    ):
        return tmpl.format(*args, **kwargs)
    out = []
    auto = [0]
    for lit, name, spec, conv in _FMT.parse(tmpl):
        if lit:
            out.append(("c", lit))
        if name is None:
            continue
        obj = _field(name, args, kwargs, auto)
        if spec and "{" in spec:
            sp = []
            for l2, n2, s2, c2 in _FMT.parse(spec):
                if l2:
                    sp.append(("c", l2))
                if n2 is not None:
                    sp += fmt_value(_field(n2, args, kwargs, auto), c2, s2)
            spec = mkstr(sp)
        out += fmt_value(obj, conv, spec)
    return mkstr(out)


def str_percent(tmpl, arg):
    """tmpl % arg with symbolic arguments (simple conversions only)."""
    args = arg if isinstance(arg, tuple) else (arg,)
    if not contains_sym(list(args)) and not isinstance(arg, Sym):
        return tmpl % arg
    out = []
    i = 0
    pos = 0
    for m in re.finditer(r"%(%|[#0\- +]*\d*(?:\.\d+)?[a-zA-Z])", tmpl):
        out.append(("c", tmpl[pos : m.start()]))
        pos = m.end()
        c = m.group(1)
        if c == "%":
            out.append(("c", "%"))
            continue
        v = args[i]
        i += 1
        if c in ("s", "d", "i"):
            out += to_str_pieces(v)
        elif contains_sym(v):
            out.append(("o", ("fmt", id(v), c)))
        else:
            out.append(("c", ("%" + c) % v))
    out.append(("c", tmpl[pos:]))
    return mkstr(out)


class SymBytes(Sym):
    __slots__ = ("s",)
    _real = bytes

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, *a, **k):
        return self.s

    def len(self):
        out = []
        for k, v in SymStr.pieces(self.s):
            if k == "c":
                out.append(z3.IntVal(len(v.encode("utf-8", "surrogatepass"))))
            elif k == "z":
                n = z3.Function("len_in_utf8", z3.StringSort(), z3.IntSort())(v)
                core.CTX.add(z3.And(n >= z3.Length(v), n <= 4 * z3.Length(v)))
                out.append(n)
            elif k == "u":
                out.append(z3.If(v < 0x80, z3.IntVal(1), z3.If(v < 0x800, z3.IntVal(2), z3.If(v < 0x10000, z3.IntVal(3), z3.IntVal(4)))))
            else:
                out.append(_piece_len(k, v))
        return SymInt(z3.simplify(z3.Sum(out)))

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode("utf-8", "surrogateescape")
        return NotImplemented

    __hash__ = Sym.__hash__


class SymRaw(Sym):
    """Bytes of known number: ints or z3 Ints from 0 to 255."""

    __slots__ = ("b",)
    _real = bytes

    def __init__(self, b):
        self.b = list(b)

    @property
    def __class__(self):
        return bytes

    def __bool__(self):
        return bool(self.b)

    def __len__(self):
        return len(self.b)

    def len(self):
        return len(self.b)

    def __add__(self, o):
        if type(o) is SymRaw:
            return SymRaw(self.b + o.b)
        if isinstance(o, bytes) and not isinstance(o, Sym):
            return SymRaw(self.b + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, bytes) and not isinstance(o, Sym):
            return SymRaw(list(o) + self.b)
        return NotImplemented

    __hash__ = Sym.__hash__

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1"):
            return mkstr([_char(b) for b in self.b])
        if enc not in ("utf-8", "utf8", "ascii", "us-ascii"):
            raise Unsupported("decoding from {}".format(encoding))
        return mkstr(decode_utf8(self.b, errors, "ascii" in enc))


def _char(b):
    return ("c", chr(b)) if isinstance(b, int) else ("u", b)


def decode_utf8(bs, errors="strict", ascii_only=False):
    def within(b, lo, hi):
        if isinstance(b, int):
            return lo <= b <= hi
        return core.CTX.decide(SymBool(z3.And(b >= lo, b <= hi)))

    out = []

    def bad(a, b):
        if errors == "strict":
            raise UnicodeDecodeError("utf-8", b"\xff" * len(bs), a, b, "invalid data")
        if errors == "replace":
            out.append(("c", "\ufffd"))
        elif errors == "surrogateescape":
            for x in bs[a:b]:
                out.append(("c", chr(0xDC00 + x)) if isinstance(x, int) else ("u", x + 0xDC00))
        elif errors != "ignore":
            raise Unsupported("decoding with errors={!r}".format(errors))

    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if within(b, 0, 0x7F):
            out.append(_char(b))
            i += 1
            continue
        if ascii_only or within(b, 0x80, 0xC1) or within(b, 0xF5, 0xFF):
            bad(i, i + 1)
            i += 1
            continue
        if within(b, 0xC2, 0xDF):
            more, first, base = 1, (0x80, 0xBF), 0xC0
        elif within(b, 0xE0, 0xEF):
            more, base = 2, 0xE0
            first = (0xA0, 0xBF) if within(b, 0xE0, 0xE0) else (0x80, 0x9F) if within(b, 0xED, 0xED) else (0x80, 0xBF)
        else:
            more, base = 3, 0xF0
            first = (0x90, 0xBF) if within(b, 0xF0, 0xF0) else (0x80, 0x8F) if within(b, 0xF4, 0xF4) else (0x80, 0xBF)
        j = i + 1
        v = b - base
        while j < n and j - i <= more and within(bs[j], *(first if j == i + 1 else (0x80, 0xBF))):
            v = v * 64 + (bs[j] - 0x80)
            j += 1
        if j - i == more + 1:
            out.append(("c", chr(v)) if isinstance(v, int) else ("u", v))
        else:
            bad(i, j)
        i = j
    return out


# ---------------------------------------------------------------------------
# regular expressions


def _cls_to_z3(items, ascii_dot=True):
    neg = False
    parts = []
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            parts.append(z3.Re(z3.StringVal(chr(av))))
        elif op is sre_c.RANGE:
            parts.append(z3.Range(chr(av[0]), chr(av[1])))
        elif op is sre_c.CATEGORY:
            parts.append(_cat_to_z3(av))
        else:
            raise Unsupported("regex class item {}".format(op))
    r = parts[0] if len(parts) == 1 else z3.Union(*parts)
    if neg:
        r = z3.Intersect(_any(), z3.Complement(r))
    return r


def _any():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def _all():
    return z3.Full(z3.ReSort(z3.StringSort()))


def _cat_to_z3(av):
    digits = z3.Range("0", "9")
    word = z3.Union(
        z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_")
    )
    space = z3.Union(*[z3.Re(z3.StringVal(c)) for c in " \t\n\r\f\v"])
    if av is sre_c.CATEGORY_DIGIT:
        return digits
    if av is sre_c.CATEGORY_WORD:
        return word
    if av is sre_c.CATEGORY_SPACE:
        return space
    neg = {
        sre_c.CATEGORY_NOT_DIGIT: digits,
        sre_c.CATEGORY_NOT_WORD: word,
        sre_c.CATEGORY_NOT_SPACE: space,
    }
    if av in neg:
        return z3.Intersect(_any(), z3.Complement(neg[av]))
    raise Unsupported("regex category {}".format(av))


_EPS = None


def _eps():
    return z3.Re(z3.StringVal(""))


def _seq_to_z3(items, flags):
    parts = []
    for op, av in items:
        if op is sre_c.LITERAL:
            parts.append(z3.Re(z3.StringVal(chr(av))))
        elif op is sre_c.NOT_LITERAL:
            parts.append(
                z3.Intersect(_any(), z3.Complement(z3.Re(z3.StringVal(chr(av)))))
            )
        elif op is sre_c.ANY:
            if flags & re.S:
                parts.append(_any())
            else:
                parts.append(
                    z3.Intersect(_any(), z3.Complement(z3.Re(z3.StringVal("\n"))))
                )
        elif op is sre_c.IN:
            parts.append(_cls_to_z3(av))
        elif op is sre_c.BRANCH:
            alts = [_seq_to_z3(a, flags) for a in av[1]]
            parts.append(alts[0] if len(alts) == 1 else z3.Union(*alts))
        elif op is sre_c.SUBPATTERN:
            parts.append(_seq_to_z3(av[3], flags))
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            r = _seq_to_z3(sub, flags)
            if hi is sre_c.MAXREPEAT:
                if lo == 0:
                    parts.append(z3.Star(r))
                elif lo == 1:
                    parts.append(z3.Plus(r))
                else:
                    parts.append(z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                parts.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
        else:
            raise Unsupported("regex construct {}".format(op))
    if not parts:
        return _eps()
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _strip_anchors(items):
    """Flatten top-level groups that only wrap, and pull the anchors off the ends."""
    items = list(items)
    start = end = None
    while items and items[0][0] is sre_c.AT:
        start = items.pop(0)[1]
    while items and items[-1][0] is sre_c.AT:
        end = items.pop()[1]
    return start, items, end


_ALLTEXT = None


def _item_ranges(op, av, flags):
    """The code points a single-character item matches with these flags."""
    global _ALLTEXT
    key = (op, repr(av), flags)
    if key not in _RANGES:
        def esc(c):
            return "\\U%08x" % c

        if op is sre_c.ANY:
            src = "."
        elif op is sre_c.LITERAL:
            src = esc(av)
        elif op is sre_c.NOT_LITERAL:
            src = "[^%s]" % esc(av)
        else:
            cats = {
                sre_c.CATEGORY_DIGIT: r"\d", sre_c.CATEGORY_NOT_DIGIT: r"\D", sre_c.CATEGORY_SPACE: r"\s",
                sre_c.CATEGORY_NOT_SPACE: r"\S", sre_c.CATEGORY_WORD: r"\w", sre_c.CATEGORY_NOT_WORD: r"\W",
            }
            src = ""
            for o, a in av:
                if o is sre_c.NEGATE:
                    src += "^"
                elif o is sre_c.LITERAL:
                    src += esc(a)
                elif o is sre_c.RANGE:
                    src += esc(a[0]) + "-" + esc(a[1])
                elif o is sre_c.CATEGORY:
                    src += cats[a]
                else:
                    raise Unsupported("regex class")
            src = "[" + src + "]"
        if _ALLTEXT is None:
            _ALLTEXT = "".join(map(chr, range(0x110000)))
        _RANGES[key] = [
            (m.start(), m.end() - 1) for m in re.finditer("(?:" + src + ")+", _ALLTEXT, flags)
        ]
    return _RANGES[key]


def _unflag(p, flags):
    out = []
    for op, av in p.data:
        if op in (sre_c.ANY, sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.IN):
            if (
                flags & re.I
                or flags & re.S and op is sre_c.ANY
                or flags & re.A and op is sre_c.IN and any(o is sre_c.CATEGORY for o, _ in av)
            ):
                rs = _item_ranges(op, av, int(flags))
                av = [(sre_c.RANGE, r) if r[0] < r[1] else (sre_c.LITERAL, r[0]) for r in rs]
                op = sre_c.IN
        elif op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            _unflag(av[2], flags)
        elif op is sre_c.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline regex flags")
            _unflag(av[3], flags)
        elif op is sre_c.BRANCH:
            for b in av[1]:
                _unflag(b, flags)
        elif op is not sre_c.AT:
            raise Unsupported("regex item with flags")
        out.append((op, av))
    p.data = out


def _parse_re(pattern, flags):
    """The parsed pattern, its flags worked into its items."""
    p = sre_parse.parse(pattern, flags)
    fl = p.state.flags & (re.I | re.A | re.S)
    if fl:
        _unflag(p, fl)
        p.state.flags &= ~int(fl)
    return p


def re_to_z3(pattern, mode="fullmatch", flags=0):
    """z3 regex of the *whole strings* s for which re.<mode>(pattern, s) matches."""
    p = _parse_re(pattern, flags)
    flags = p.state.flags
    if flags & re.M:
        raise Unsupported("regex flags")
    start, items, end = _strip_anchors(p)
    if any(op is sre_c.AT for op, _ in items):
        raise Unsupported("inner regex anchor")
    body = _seq_to_z3(items, flags)
    pre = [] if (start is not None or mode in ("match", "fullmatch")) else [_all()]
    if end is sre_c.AT_END_STRING or mode == "fullmatch":
        post = []
        if mode == "fullmatch" and end is sre_c.AT_END:
            post = []
    elif end is sre_c.AT_END:
        post = [z3.Option(z3.Re(z3.StringVal("\n")))]
    elif end is None:
        post = [_all()]
    else:
        raise Unsupported("regex end anchor")
    seq = pre + [body] + post
    return seq[0] if len(seq) == 1 else z3.Concat(*seq)


class SymMatch:
    """Match object over a rope; groups are ropes."""

    def __init__(self, groups, names):
        self._g = groups
        self._names = names

    def group(self, *n):
        if not n:
            n = (0,)
        r = []
        for i in n:
            if isinstance(i, str):
                i = self._names[i]
            if i == 0 and 0 not in self._g:
                raise Unsupported("group(0)")
            r.append(self._g.get(i))
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, i):
        return self.group(i)

    def groups(self, default=None):
        n = max([k for k in self._g] + [0])
        return tuple(self._g.get(i, default) for i in range(1, n + 1))

    def groupdict(self, default=None):
        return {k: self._g.get(i, default) for k, i in self._names.items()}


class OpaqueMatch:
    def __getattr__(self, n):
        raise Unsupported("regex groups of a symbolic string")


def _tokens(s):
    out = []
    for k, v in s.p:
        if k == "c":
            out += [("c", ch) for ch in v]
        elif k in ("d", "u"):
            out.append((k, v))
        else:
            return None
    return out


_RANGES = {}


def _category_ranges(cat):
    """The code points of a regex category (of Unicode patterns), as ranges."""
    if cat not in _RANGES:
        esc = {
            sre_c.CATEGORY_DIGIT: r"\d", sre_c.CATEGORY_NOT_DIGIT: r"\D", sre_c.CATEGORY_SPACE: r"\s",
            sre_c.CATEGORY_NOT_SPACE: r"\S", sre_c.CATEGORY_WORD: r"\w", sre_c.CATEGORY_NOT_WORD: r"\W",
        }.get(cat)
        if esc is None:
            raise Unsupported("regex class")
        text = "".join(map(chr, range(0x110000)))
        _RANGES[cat] = [(m.start(), m.end() - 1) for m in re.finditer(esc + "+", text)]
    return _RANGES[cat]


def _class_z(op, av, v):
    """The code v is one of those the single-character item matches."""
    if op is sre_c.LITERAL:
        return v == av
    if op is sre_c.NOT_LITERAL:
        return v != av
    if op is sre_c.ANY:
        return v != 10
    if op is sre_c.IN:
        neg, cases = False, []
        for o, a in av:
            if o is sre_c.NEGATE:
                neg = True
            elif o is sre_c.LITERAL:
                cases.append(v == a)
            elif o is sre_c.RANGE:
                cases.append(z3.And(v >= a[0], v <= a[1]))
            elif o is sre_c.CATEGORY:
                cases += [z3.And(v >= lo, v <= hi) for lo, hi in _category_ranges(a)]
            else:
                raise Unsupported("regex class")
        e = z3.Or(*cases)
        return z3.Not(e) if neg else e
    raise Unsupported("regex item")


def _hit(op, av, tok):
    if tok[0] == "u":
        return core.CTX.decide(SymBool(_class_z(op, av, tok[1])))
    return _one(op, av, tok[1])


def _digits_class(op, av):
    """Does the single-character item match every digit / no digit / some?"""
    ds = "0123456789"
    pat_hits = [c for c in ds if _one(op, av, c)]
    if len(pat_hits) == 10:
        return "all"
    return "none" if not pat_hits else "some"


def _one(op, av, ch):
    if op is sre_c.LITERAL:
        return ord(ch) == av
    if op is sre_c.NOT_LITERAL:
        return ord(ch) != av
    if op is sre_c.ANY:
        return ch != "\n"
    if op is sre_c.IN:
        neg = False
        hit = False
        for o, a in av:
            if o is sre_c.NEGATE:
                neg = True
            elif o is sre_c.LITERAL:
                hit = hit or ord(ch) == a
            elif o is sre_c.RANGE:
                hit = hit or a[0] <= ord(ch) <= a[1]
            elif o is sre_c.CATEGORY:
                name = str(a)
                t = {
                    "CATEGORY_DIGIT": ch.isdigit(),
                    "CATEGORY_NOT_DIGIT": not ch.isdigit(),
                    "CATEGORY_WORD": ch.isalnum() or ch == "_",
                    "CATEGORY_NOT_WORD": not (ch.isalnum() or ch == "_"),
                    "CATEGORY_SPACE": ch.isspace(),
                    "CATEGORY_NOT_SPACE": not ch.isspace(),
                }.get(name)
                if t is None:
                    raise Unsupported("regex category")
                hit = hit or t
            else:
                raise Unsupported("regex class")
        return hit != neg
    raise Unsupported("regex item")


_SINGLE = (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN)


def _rope_match(items, toks, i, groups, k):
    """Backtracking matcher; yields via continuation k(i, groups) -> result or None.

    A digits token ('d', non-negative int) is consumed whole by repeats of classes
    that contain every digit, and never split.
    """
    if not items:
        return k(i, groups)
    (op, av), rest = items[0], items[1:]
    if op in _SINGLE:
        if i >= len(toks):
            return None
        if toks[i][0] == "d":
            if _digits_class(op, av) == "none":
                return None
            # one digit exactly, or part of the number: the value decides
            v = toks[i][1]
            if _digits_class(op, av) == "all":
                if core.CTX.decide(SymBool(z3.And(v >= 0, v <= 9))):
                    return _rope_match(rest, toks, i + 1, groups, k)
                raise Unsupported("splitting a symbolic number")
            raise Unsupported("regex distinguishes digits")
        if _hit(op, av, toks[i]):
            return _rope_match(rest, toks, i + 1, groups, k)
        return None
    if op is sre_c.AT:
        if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
            return _rope_match(rest, toks, i, groups, k) if i == 0 else None
        if av is sre_c.AT_END_STRING:
            return _rope_match(rest, toks, i, groups, k) if i == len(toks) else None
        if av is sre_c.AT_END:
            if i == len(toks) or (i == len(toks) - 1 and toks[i][0] != "d" and _hit(sre_c.LITERAL, 10, toks[i])):
                return _rope_match(rest, toks, i, groups, k)
            return None
        raise Unsupported("regex anchor")
    if op is sre_c.SUBPATTERN:
        gid, _, _, sub = av

        def k2(j, g):
            if gid is not None:
                g = dict(g)
                g[gid] = mkstr(toks[i:j])
            return _rope_match(rest, toks, j, g, k)

        return _rope_match(list(sub), toks, i, groups, k2)
    if op is sre_c.BRANCH:
        for alt in av[1]:
            r = _rope_match(list(alt) + rest, toks, i, groups, k)
            if r is not None:
                return r
        return None
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        if len(sub) == 1 and sub[0][0] in _SINGLE:
            # positions reachable by n repetitions
            ends = [(0, i)]
            n, j = 0, i
            while j < len(toks) and (hi is sre_c.MAXREPEAT or n < hi):
                if toks[j][0] == "d":
                    dc = _digits_class(*sub[0])
                    if dc == "none":
                        break
                    if dc == "some":
                        raise Unsupported("regex distinguishes digits")
                    if hi is not sre_c.MAXREPEAT:
                        v = toks[j][1]
                        if not core.CTX.decide(
                            SymBool(z3.And(v >= 0, v < 10 ** (hi - n)))
                        ):
                            raise Unsupported("splitting a symbolic number")
                    n += 1
                    j += 1
                elif _hit(sub[0][0], sub[0][1], toks[j]):
                    n += 1
                    j += 1
                else:
                    break
                ends.append((n, j))
            order = reversed(ends) if op is sre_c.MAX_REPEAT else ends
            for n, j in order:
                if n < lo:
                    continue
                r = _rope_match(rest, toks, j, groups, k)
                if r is not None:
                    return r
            return None

        def attempt(n, j, g):
            if hi is sre_c.MAXREPEAT or n < hi:

                def k3(j2, g2):
                    if j2 == j:
                        return None
                    return attempt(n + 1, j2, g2)

                r = _rope_match(sub, toks, j, g, k3)
                if r is not None:
                    return r
            if n >= lo:
                return _rope_match(rest, toks, j, g, k)
            return None

        return attempt(0, i, groups)
    raise Unsupported("regex construct {} on a rope".format(op))


def re_match(mode, pattern, s, flags=0):
    if type(s) is not SymStr:
        return getattr(re, mode)(pattern, s, flags)
    toks = _tokens(s)
    if toks is not None:
        # numbers in ropes must be non-negative to render as plain digits
        for kk, v in toks:
            if kk == "d" and not core.CTX.decide(SymBool(v >= 0)):
                raise Unsupported("negative number in a rope")
        p = _parse_re(pattern, flags)
        if p.state.flags & re.M:
            raise Unsupported("regex flags")

        starts = range(len(toks) + 1) if mode == "search" else [0]
        for st in starts:

            def done(j, g):
                if mode == "fullmatch" and j != len(toks):
                    return None
                g = dict(g)
                g[0] = mkstr(toks[st:j])
                return SymMatch(g, dict(p.state.groupdict))

            r = _rope_match(list(p), toks, st, {}, done)
            if r is not None:
                return r
        return None
    if core.CTX.decide(SymBool(z3.InRe(s.z(), re_to_z3(pattern, mode, flags)))):
        return OpaqueMatch()
    return None


# ---------------------------------------------------------------------------
# containers

_MISSING = object()


def _is_symkey(k):
    if isinstance(k, Sym):
        return True
    return type(k) is tuple and any(isinstance(x, Sym) for x in k)


class SDict(dict):
    """A dict that accepts symbolic keys.

    While every key is concrete it is an ordinary dict.  When a symbolic key is
    stored it switches to a write log, read back from the newest entry.
    """

    __slots__ = ("_log", "__weakref__")

    def __init__(self, *a, **k):
        self._log = None
        super().__init__()
        if a:
            self._fill(a[0])
        for kk, v in k.items():
            self[kk] = v

    def _fill(self, src):
        if isinstance(src, dict) or hasattr(src, "keys"):
            for kk, v in list(src.items()):
                self[kk] = v
        else:
            for kk, v in src:
                self[kk] = v

    def _tolog(self):
        if self._log is None:
            self._log = [(k, v) for k, v in dict.items(self)]
            dict.clear(self)

    def __setitem__(self, k, v):
        if self._log is None and not _is_symkey(k):
            dict.__setitem__(self, k, v)
            return
        self._tolog()
        for i, (kk, _) in enumerate(self._log):
            if _same(kk, k):
                self._log[i] = (kk, v)
                # keep shadowing order: later entries may alias symbolically
                self._log.append(self._log.pop(i))
                return
        self._log.append((k, v))

    def _find(self, k):
        if self._log is None:
            if not _is_symkey(k):
                return dict.get(self, k, _MISSING)
            for kk in list(dict.keys(self)):
                if _keyeq(kk, k):
                    return dict.__getitem__(self, kk)
            return _MISSING
        for kk, v in reversed(self._log):
            if _keyeq(kk, k):
                return v
        return _MISSING

    def __getitem__(self, k):
        r = self._find(k)
        if r is _MISSING:
            raise KeyError(k)
        return r

    def get(self, k, d=None):
        r = self._find(k)
        return d if r is _MISSING else r

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def _norm(self):
        """Resolve the log to distinct keys (forks on key equalities)."""
        out = []
        for k, v in reversed(self._log):
            if not any(_keyeq(k, k2) for k2, _ in out):
                out.append((k, v))
        out.reverse()
        self._log = out

    def keys(self):
        if self._log is None:
            return dict.keys(self)
        self._norm()
        return SKeys([k for k, _ in self._log])

    def values(self):
        if self._log is None:
            return dict.values(self)
        self._norm()
        return [v for _, v in self._log]

    def items(self):
        if self._log is None:
            return dict.items(self)
        self._norm()
        return list(self._log)

    def __iter__(self):
        if self._log is None:
            return dict.__iter__(self)
        return iter(self.keys())

    def __len__(self):
        if self._log is None:
            return dict.__len__(self)
        self._norm()
        return len(self._log)

    def __bool__(self):
        return len(self) > 0 if self._log is None else len(self._log) > 0

    def __delitem__(self, k):
        if self._log is None and not _is_symkey(k):
            dict.__delitem__(self, k)
            return
        self._tolog()
        self._norm()
        for i, (kk, _) in enumerate(self._log):
            if _keyeq(kk, k):
                del self._log[i]
                return
        raise KeyError(k)

    def pop(self, k, *d):
        r = self._find(k)
        if r is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return r

    def setdefault(self, k, d=None):
        r = self._find(k)
        if r is _MISSING:
            self[k] = d
            return d
        return r

    def update(self, *a, **k):
        if a:
            self._fill(a[0])
        for kk, v in k.items():
            self[kk] = v

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def copy(self):
        r = SDict()
        if self._log is None:
            dict.update(r, dict.items(self))
        else:
            r._log = list(self._log)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = SDict()
        memo[id(self)] = r
        if self._log is None:
            for k, v in dict.items(self):
                dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        else:
            r._log = [
                (copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self._log
            ]
        return r

    def clear(self):
        self._log = None
        dict.clear(self)

    def popitem(self):
        if self._log is None:
            return dict.popitem(self)
        self._norm()
        return self._log.pop()

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        return struct_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def __repr__(self):
        return (
            dict.__repr__(self)
            if self._log is None
            else "<sdict {!r}>".format(self._log)
        )


def _same(a, b):
    """Syntactically the same key."""
    if a is b:
        return True
    if type(a) is SymStr and type(b) is SymStr:
        return len(a.p) == len(b.p) and all(
            x[0] == y[0]
            and (x[1] is y[1] or (x[0] == "c" and x[1] == y[1]) or (x[0] in "zd" and x[1].eq(y[1])))
            for x, y in zip(a.p, b.p)
        )
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def _keyeq(a, b):
    """Key equality; forks if undetermined."""
    if _same(a, b):
        return True
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(_keyeq(x, y) for x, y in zip(a, b))
    r = a == b
    return bool(r)


class SKeys(list):
    """The keys of a dict some of which are symbolic."""

    def __and__(self, o):
        return SSet(self) & o

    def __or__(self, o):
        return SSet(self) | o

    def __xor__(self, o):
        return SSet(self) ^ o

    def __sub__(self, o):
        return SSet(self) - o

    def __contains__(self, x):
        return any(_keyeq(x, y) for y in self)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __rsub__(self, o):
        return SSet(o) - self

    def isdisjoint(self, o):
        return SSet(self).isdisjoint(o)


class SSet:
    """A list-backed set for symbolic members (no hashing)."""

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    def add(self, x):
        if not any(_keyeq(x, y) for y in self._l):
            self._l.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        self._l = [y for y in self._l if not _keyeq(x, y)]

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if len(self._l) == n:
            raise KeyError(x)

    def __contains__(self, x):
        return any(_keyeq(x, y) for y in self._l)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __sub__(self, o):
        return SSet([x for x in self._l if x not in SSet(o)])

    def __rsub__(self, o):
        return SSet([x for x in o if x not in self])

    def __and__(self, o):
        return SSet([x for x in self._l if x in SSet(o)])

    __rand__ = __and__

    def __or__(self, o):
        return SSet(list(self._l) + list(o))

    __ror__ = __or__

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return SSet(o).issubset(self)

    def isdisjoint(self, o):
        o = SSet(o)
        return not any(x in o for x in self._l)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            r = r & it
        return r.copy()

    def difference(self, *its):
        r = self
        for it in its:
            r = r - it
        return r.copy()

    def __xor__(self, o):
        return (self - o) | (SSet(o) - self)

    __rxor__ = symmetric_difference = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self._l = (self - o)._l
        return self

    def __iand__(self, o):
        self._l = (self & o)._l
        return self

    difference_update, intersection_update = __isub__, __iand__

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset)):
            return NotImplemented
        return self.issubset(o) and SSet(o).issubset(self)

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(SSet(o)) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(SSet(o)) and self.issuperset(o)

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        return self._l.pop(0)

    def clear(self):
        self._l = []

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self._l))

    @property
    def __class__(self):
        return set

    def copy(self):
        return SSet(self._l)


def struct_eq(a, b):
    """Structural equality without forking where shapes are concrete."""
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if (isinstance(a, SDict) and a._log is not None) or (
            isinstance(b, SDict) and b._log is not None
        ):
            ka, kb = list(a.keys()), list(b.keys())
            if len(ka) != len(kb):
                return False
            conds = []
            for k in ka:
                if isinstance(b, SDict):
                    v = b._find(k)
                else:
                    v = SDict(b)._find(k)
                if v is _MISSING:
                    return False
                conds.append(struct_eq(a[k], v))
            return And(*conds) if conds else True
        if set(dict.keys(a)) != set(dict.keys(b)):
            return False
        conds = [struct_eq(a[k], b[k]) for k in dict.keys(a)]
        return And(*conds) if conds else True
    if type(a) in (list, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        conds = [struct_eq(x, y) for x, y in zip(a, b)]
        return And(*conds) if conds else True
    ta, tb = py_type(a), py_type(b)
    if ta is not tb and not (
        ta in (int, float, bool) and tb in (int, float, bool)
    ):
        return False if (isinstance(a, Sym) or isinstance(b, Sym)) else a == b
    return a == b


def py_type(x):
    t = type(x)
    if issubclass(t, Sym):
        return t._real
    if t is SDict:
        return dict
    if t is SSet:
        return set
    return t


def model_eval(v, m):
    """Render an observed value under a model, as a JSON-able Python value."""
    if type(v) is SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if type(v) is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if type(v) is SymReal:
        return float(m.eval(v.e, model_completion=True).as_fraction())
    if type(v) is SymTD:
        return m.eval(v.e, model_completion=True).as_long()
    if type(v) is SymDT:
        return m.eval(v.inst, model_completion=True).as_long()
    if type(v) is SymStr:
        out = ""
        for k, x in v.p:
            if k == "c":
                out += x
            elif k == "d":
                out += str(m.eval(x, model_completion=True).as_long())
            elif k == "u":
                out += chr(m.eval(x, model_completion=True).as_long())
            elif k == "z":
                out += core.zstr_value(m.eval(x, model_completion=True))
            else:
                return None
        return out
    if isinstance(v, dict):
        return {str(k): model_eval(x, m) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [model_eval(x, m) for x in v]
    return conc_eval(v)


def conc_eval(v):
    if isinstance(v, REAL_DATETIME):
        if v.tzinfo is None:
            v = v.astimezone()
        return td_us(v - EPOCH)
    if isinstance(v, REAL_TIMEDELTA):
        return td_us(v)
    if isinstance(v, dict):
        return {str(k): conc_eval(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [conc_eval(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def us_of(dt):
    """Instant in microseconds of a real or symbolic datetime."""
    if type(dt) is SymDT:
        return dt.us()
    if dt.tzinfo is None:
        dt = dt.astimezone()
    return td_us(dt - EPOCH)


def td_us_of(td):
    return SymInt(td.e) if type(td) is SymTD else td_us(td)

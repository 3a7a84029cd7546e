"""Proxy values: booleans, integers, rationals ("floats") and identifier strings."""
from __future__ import annotations

import math
from datetime import timedelta as _TD
from fractions import Fraction

import z3

from .engine import Unsupported, cur

# ---------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().decide(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        b = bterm(o)
        if b is None:
            return NotImplemented
        return SymBool(self.t == b)

    def __ne__(self, o):
        b = bterm(o)
        if b is None:
            return NotImplemented
        return SymBool(self.t != b)

    def __and__(self, o):
        b = bterm(o)
        return NotImplemented if b is None else SymBool(z3.And(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = bterm(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.t, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = bterm(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.t, b))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return "<symbool>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _isb(x):
    return type(x) is bool


def bterm(x):
    if type(x) is SymBool:
        return x.t
    if type(x) is bool:
        return z3.BoolVal(x)
    return None


def is_sym(x):
    return getattr(type(x), "__symx__", False)


SymBool.__symx__ = True


def And(*xs):
    if any(type(x) is SymBool for x in xs):
        return SymBool(z3.And(*[bterm(x) for x in xs]))
    return all(xs)


def Or(*xs):
    if any(type(x) is SymBool for x in xs):
        return SymBool(z3.Or(*[bterm(x) for x in xs]))
    return any(xs)


def Not(x):
    return SymBool(z3.Not(x.t)) if type(x) is SymBool else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def Eq(a, b):
    """Equality as a value (no fork): a SymBool in symbolic mode."""
    r = a == b
    return r


def Ite(c, a, b):
    if type(c) is not SymBool:
        return a if c else b
    if is_sym(a) or is_sym(b):
        if type(a) is SymReal or type(b) is SymReal or isinstance(a, float) or isinstance(b, float):
            A, B = as_real(a), as_real(b)
            A, B, d = _common(A, B)
            return SymReal(z3.If(c.t, A, B), d)
        if type(a) is SymBool or type(b) is SymBool:
            return SymBool(z3.If(c.t, bterm(a), bterm(b)))
    return SymInt(z3.If(c.t, iterm(a), iterm(b)))


# ---------------------------------------------------------------- integers


def iterm(x):
    ty = type(x)
    if ty is SymInt:
        return x.t
    if ty is bool:
        return z3.IntVal(int(x))
    if ty is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int) and not is_sym(x):
        return z3.IntVal(int(x))
    return None


class SymInt:
    __slots__ = ("t",)
    __symx__ = True

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    # conversions
    def __bool__(self):
        return cur().decide(self.t != 0)

    def __index__(self):
        return cur().concretize(self.t, what="int")

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __round__(self, n=None):
        return self

    def __hash__(self):
        return hash(self.__index__())

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def bit_length(self):
        return int(self).bit_length()

    # arithmetic
    def _bin(self, o, f, g):
        b = iterm(o)
        if b is not None:
            return SymInt(z3.simplify(f(self.t, b)))
        if isinstance(o, (float, Fraction)):
            return g(SymReal(self.t, 1), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and not is_sym(o):
            return o * self.__index__()
        if isinstance(o, _TD):
            from .dt import lift_td

            return lift_td(o) * self
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        b = iterm(o)
        if b is None:
            if isinstance(o, (float, Fraction)):
                return SymReal(self.t, 1) // o
            return NotImplemented
        return SymInt(floordiv(self.t, b))

    def __rfloordiv__(self, o):
        b = iterm(o)
        return NotImplemented if b is None else SymInt(floordiv(b, self.t))

    def __mod__(self, o):
        b = iterm(o)
        if b is None:
            return NotImplemented
        return SymInt(floormod(self.t, b))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        b = iterm(o)
        return NotImplemented if b is None else SymInt(floormod(b, self.t))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return SymReal(self.t, 1) / o

    def __rtruediv__(self, o):
        return o / SymReal(self.t, 1)

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = SymInt(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("pow on symbolic int")

    def __and__(self, o):
        """Bit operations against a concrete non-negative mask."""
        if isinstance(o, int) and not is_sym(o) and o >= 0:
            acc = z3.IntVal(0)
            bit = 1
            while bit <= o:
                if o & bit:
                    acc = acc + z3.If(floormod(floordiv(self.t, z3.IntVal(bit)), z3.IntVal(2)) == 1,
                                      z3.IntVal(bit), z3.IntVal(0))
                bit <<= 1
            return SymInt(z3.simplify(acc))
        if type(o) is SymInt:
            w = 20
            cur().assert_(z3.And(self.t >= 0, self.t < 2 ** w, o.t >= 0, o.t < 2 ** w))
            return SymInt(z3.BV2Int(z3.Int2BV(self.t, w) & z3.Int2BV(o.t, w)))
        return NotImplemented

    __rand__ = __and__

    # comparisons
    def _cmp(self, o, f, rf):
        b = iterm(o)
        if b is not None:
            return SymBool(f(self.t, b))
        if isinstance(o, (float, Fraction)) or type(o) is SymReal:
            return rf(SymReal(self.t, 1), o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __repr__(self):
        return "<symint>"

    def __format__(self, spec):
        return "<symint>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def floordiv(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b):
        n = b.as_long()
        if n == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if n > 0:
            return z3.simplify(a / b)
        return z3.simplify((-a) / z3.IntVal(-n))
    e = cur()
    if e.decide(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if e.decide(b > 0):
        return a / b
    return (-a) / (-b)


def floormod(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b):
        n = b.as_long()
        if n == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if n > 0:
            return z3.simplify(a % b)
        return z3.simplify(-((-a) % z3.IntVal(-n)))
    e = cur()
    if e.decide(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if e.decide(b > 0):
        return a % b
    return -((-a) % (-b))


# ---------------------------------------------------------------- rationals


def _frac(x):
    return Fraction(x)


class SymReal:
    """Exact rational num/den, den a positive Python int, num an Int term.

    Models Python floats as exact rationals (rounding is outside the model)."""

    __slots__ = ("_n", "d", "prov")
    __symx__ = True

    def __init__(self, n, d=1, prov=None):
        self._n = n
        self.d = d
        self.prov = prov

    @property
    def n(self):
        if self._n is None:
            self._n = self.prov._utc()
        return self._n

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return cur().decide(self.n != 0)

    def __float__(self):
        e = cur()
        return float(Fraction(e.concretize(self.n, what="float"), self.d))

    def __int__(self):
        return int(self.__trunc__())

    def __trunc__(self):
        return SymInt(z3.simplify(z3.If(self.n >= 0, self.n / self.d, -((-self.n) / self.d))))

    def __ceil__(self):
        return SymInt(z3.simplify(-((-self.n) / self.d)))

    def __floor__(self):
        return SymInt(z3.simplify(self.n / self.d))

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            # round half to even
            f = self.n / self.d
            r2 = 2 * (self.n - f * self.d)
            v = z3.If(r2 < self.d, f, z3.If(r2 > self.d, f + 1, z3.If(f % 2 == 0, f, f + 1)))
            return SymInt(z3.simplify(v)) if nd is None else SymReal(z3.simplify(v), 1)
        s = self * (10 ** nd)
        return SymReal(s.__round__().t, 10 ** nd)

    def is_integer(self):
        return SymBool(self.n % self.d == 0)

    def as_integer_ratio(self):
        raise Unsupported("as_integer_ratio")

    def __hash__(self):
        return hash(self.__float__())

    def __neg__(self):
        return SymReal(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.n >= 0, self.n, -self.n), self.d)

    def _co(self, o):
        if type(o) is SymReal:
            return o
        b = iterm(o)
        if b is not None:
            return SymReal(b, 1)
        if isinstance(o, (float, Fraction)) and not is_sym(o):
            if isinstance(o, float) and not math.isfinite(o):
                return None
            f = Fraction(o)
            return SymReal(z3.IntVal(f.numerator), f.denominator)
        return None

    def __add__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        x, y, d = _common(self, b)
        return SymReal(z3.simplify(x + y), d)

    __radd__ = __add__

    def __sub__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        x, y, d = _common(self, b)
        return SymReal(z3.simplify(x - y), d)

    def __rsub__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else b - self

    def __mul__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        return _reduce(z3.simplify(self.n * b.n), self.d * b.d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._co(o)
        if b is None:
            return NotImplemented
        bn = z3.simplify(b.n)
        if z3.is_int_value(bn):
            k = bn.as_long()
            if k == 0:
                raise ZeroDivisionError("float division by zero")
            f = Fraction(b.d, k)
            return _reduce(z3.simplify(self.n * f.numerator), self.d * f.denominator)
        raise Unsupported("division by a symbolic value")

    def __rtruediv__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else b / self

    def __floordiv__(self, o):
        q = self / o
        return SymReal(q.__floor__().t, 1)

    def __mod__(self, o):
        q = self / o
        return self - SymReal(q.__floor__().t, 1) * o

    def _cmp(self, o, f, inf):
        if isinstance(o, float) and not is_sym(o) and not math.isfinite(o):
            return inf(o)
        b = self._co(o)
        if b is None:
            return NotImplemented
        x, y, d = _common(self, b)
        return SymBool(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda v: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda v: True)

    def __repr__(self):
        return "<symreal>"

    def __format__(self, spec):
        return "<symreal>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _reduce(n, d):
    return SymReal(n, d)


def as_real(x):
    if type(x) is SymReal:
        return x
    b = iterm(x)
    if b is not None:
        return SymReal(b, 1)
    f = Fraction(x)
    return SymReal(z3.IntVal(f.numerator), f.denominator)


def _common(a, b):
    if a.d == b.d:
        return a.n, b.n, a.d
    g = math.gcd(a.d, b.d)
    d = a.d // g * b.d
    return a.n * (d // a.d), b.n * (d // b.d), d


# ---------------------------------------------------------------- identifier strings


class SymAtom:
    """An opaque non-empty string known only through equality and order.

    Used for task ids / aliases: two atoms may be equal or ordered either way;
    atoms are distinct from every literal string of the code under test except
    the ones registered through `pool`."""

    __slots__ = ("t", "nm")
    __symx__ = True

    def __init__(self, t, nm="atom"):
        self.t = t
        self.nm = nm

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return 77

    def _o(self, o):
        if type(o) is SymAtom:
            return o.t
        return None

    def __eq__(self, o):
        b = self._o(o)
        if b is None:
            if isinstance(o, str):
                return False
            return NotImplemented
        return SymBool(self.t == b)

    def __ne__(self, o):
        b = self._o(o)
        if b is None:
            if isinstance(o, str):
                return True
            return NotImplemented
        return SymBool(self.t != b)

    def __lt__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymBool(self.t < b)

    def __le__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymBool(self.t <= b)

    def __gt__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymBool(self.t > b)

    def __ge__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymBool(self.t >= b)

    def __bool__(self):
        return True

    def lower(self):
        return self

    upper = strip = lower

    def __str__(self):
        return "<%s>" % self.nm

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

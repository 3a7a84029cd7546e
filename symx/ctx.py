"""Harness contexts: one harness source runs symbolically and concretely."""
from __future__ import annotations

import contextlib
import datetime as _d
import re as _re
import sys
from fractions import Fraction

import z3

from . import dt as sdt
from . import symstr
from .symstr import FakeRe, FakeStr, SymPattern, SymStr, mk
from .engine import Control, PathAbort, Unsupported, Violated
from .values import (And, Eq, Iff, Implies, Ite, Not, Or, SymAtom, SymBool, SymInt, SymReal, bterm, iterm,
                     is_sym)

UTC = _d.timezone.utc
T0 = sdt.to_us(_d.datetime(2024, 1, 1))
SEC = 1_000_000
MIN = 60 * SEC
HOUR = 3600 * SEC
DAY = 86400 * SEC

__all__ = ["And", "Or", "Not", "Eq", "Iff", "Implies", "Ite", "UTC", "T0", "SEC", "MIN", "HOUR", "DAY", "is_sym"]


class BaseCtx:
    symbolic = False

    def __init__(self):
        self.clock_fn = None
        self.observations = []
        self.counters = {}
        self.reached = set()
        self.last_now = None

    # naming
    def _name(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    # environment
    def now(self, tz=None):
        if self.clock_fn is None:
            raise Unsupported("clock read without a clock stub")
        r = self.clock_fn(tz)
        if tz is not None and r.tzinfo is not tz:
            r = r.astimezone(tz)
        if tz is None and r.tzinfo is not None:
            r = r.replace(tzinfo=None)
        return r

    def fixed_clock(self, value):
        self.clock_fn = lambda tz: value

    def monotone_clock(self, lo, hi, name="clock", tz=UTC):
        """Arbitrary non-decreasing instants in [lo, hi]."""

        def f(_tz):
            v = self.dt(name, lo, hi, tz)
            if self.last_now is not None:
                self.assume(v >= self.last_now)
            self.last_now = v
            return v

        self.clock_fn = f

    def uniform(self, a, b):
        """random.uniform: any microsecond-grid value in [a, b]."""
        ai, bi = (a, b)
        v = self.int("random", None, None)
        self.assume(And(v >= ai * SEC, v <= bi * SEC))
        return v / SEC if self.symbolic else v / SEC

    def observe(self, key, value):
        self.observations.append((key, value))

    def reach(self, label):
        self.reached.add(label)

    def flag(self, name):
        """A python bool, both values explored."""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if self.symbolic:
            for k in range(len(options) - 1):
                if i == k:
                    return options[k]
            return options[-1]
        return options[i]

    def opt(self, name, thunk):
        """None or thunk()."""
        if self.flag(name + "?none"):
            return None
        return thunk()

    def instant(self, name, lo=None, hi=None, tz=UTC, grid=1):
        return self.dt(name, lo, hi, tz, grid)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine):
        super().__init__()
        self.e = engine
        del symstr.TOKENS[:]

    def int(self, name, lo=None, hi=None):
        t = self.e.var_int(self._name(name))
        cs = []
        if lo is not None:
            cs.append(t >= lo)
        if hi is not None:
            cs.append(t <= hi)
        if cs:
            self.e.assert_(z3.And(*cs))
        return SymInt(t)

    def bool(self, name):
        return SymBool(self.e.var_bool(self._name(name)))

    def real(self, name, lo, hi, den=1000):
        """A rational with denominator `den` in [lo, hi]."""
        t = self.e.var_int(self._name(name))
        self.e.assert_(z3.And(t >= int(Fraction(lo) * den), t <= int(Fraction(hi) * den)))
        return SymReal(t, den)

    def atom(self, name, hi=1000):
        t = self.e.var_int(self._name(name))
        self.e.assert_(z3.And(t >= 0, t <= hi))
        return SymAtom(t, name)

    def str(self, name, n, alphabet=None):
        """A string of exactly n characters; alphabet: list of characters / (lo, hi) ranges."""
        name = self._name(name)
        cs = []
        alphabet = alphabet or [(" ", "~")]
        for k in range(n):
            v = z3.Int("%s[%d]" % (name, k))
            self.e.vars["%s[%d]" % (name, k)] = v
            self.e.assert_(z3.Or(*[v == ord(a) if len(a) == 1 else z3.And(v >= ord(a[0]), v <= ord(a[1])) for a in alphabet]))
            cs.append(v)
        return mk(cs)

    def strlen(self, name, lo, hi, alphabet=None):
        """A string of lo..hi characters (one path class per length)."""
        n = self.int(name + ".len", lo, hi)
        for k in range(lo, hi):
            if n == k:
                return self.str(name, k, alphabet)
        return self.str(name, hi, alphabet)

    def dt(self, name, lo, hi, tz=UTC, grid=1):
        """An instant in [lo, hi] (UTC microseconds), expressed in tz."""
        t = self.e.var_int(self._name(name))
        if grid != 1:
            self.e.assert_(z3.And(t >= -(-lo // grid), t <= hi // grid))
            t = t * grid
        else:
            self.e.assert_(z3.And(t >= lo, t <= hi))
        if tz is None:
            return sdt.SymDT(t, None)
        return sdt.from_utc_term(t, tz)

    def dtf(self, name, lo, hi, tz=UTC, grid=1):
        """A wall-clock time in [lo, hi] given by calendar components (year, month, ...)."""
        if grid not in (1, SEC, MIN, HOUR, DAY):
            raise Unsupported("grid")
        name = self._name(name)
        a, b = sdt.from_us(lo), sdt.from_us(hi)
        f = {}
        cs = []
        lim = dict(year=(a.year, b.year), month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 59),
                   microsecond=(0, SEC - 1))
        zero = {1: (), SEC: sdt.COMPS[6:], MIN: sdt.COMPS[5:], HOUR: sdt.COMPS[4:], DAY: sdt.COMPS[3:]}[grid]
        for c in sdt.COMPS:
            l, h = lim[c]
            if c in zero or l == h:
                f[c] = z3.IntVal(0 if c in zero else l)
                continue
            v = z3.Int("%s.%s" % (name, c))
            f[c] = v
            cs.append(z3.And(v >= l, v <= h))
        cs.append(f["day"] <= sdt.dim_term(f["year"], f["month"]))
        r = sdt.SymDT(None, tz, sdt.FALSE, f)
        self.e.assert_(z3.And(*cs))
        for bound, op in ((a, "ge"), (b, "le")):
            bf = {c: z3.IntVal(getattr(bound, c)) for c in sdt.COMPS}
            self.e.assert_(sdt.lex(f, bf, (lambda x, y: x >= y) if op == "ge" else (lambda x, y: x <= y)))
        self.e.vars[name] = r.wall
        return r

    def td(self, name, lo, hi, grid=1):
        t = self.e.var_int(self._name(name))
        self.e.assert_(z3.And(t * grid >= lo, t * grid <= hi))
        return sdt.SymTD(t * grid)

    def digit(self, ch):
        if not is_sym(ch):
            return ord(ch) - 48
        return SymInt(z3.simplify(ch.cs[0] - 48))

    def pick(self, table, i):
        """table[i], one path per entry."""
        for k in range(len(table) - 1):
            if i == k:
                return table[k]
        return table[-1]

    def split(self, v, limit=64):
        """A concrete value of v, one path per value."""
        return self.e.concretize(iterm(v), limit=limit) if is_sym(v) else v

    def assume(self, c):
        b = bterm(c)
        if b is None:
            b = z3.BoolVal(bool(c))
        b = z3.simplify(b)
        if z3.is_false(b):
            self.e._raise(PathAbort())
        self.e.assert_(b)

    def check(self, c, msg):
        b = bterm(c)
        if b is None:
            b = bool(c)
        self.e.check(b, msg)

    def us(self, d):
        """UTC microseconds of an aware datetime (or wall microseconds of a naive one)."""
        d = sdt.lift_dt(d)
        return SymInt(d.wall if d.tz is None else d._utc())

    def wall(self, d):
        return SymInt(sdt.lift_dt(d).wall)

    def to_int(self, x):
        return x

    def mkdt(self, us, tz=UTC):
        return sdt.from_utc_term(iterm(us), tz)

    def mktd(self, us):
        return sdt.SymTD(iterm(us))

    def mkreal(self, n, d):
        return SymReal(iterm(n), d)


class ConCtx(BaseCtx):
    """Replays concrete values through the same harness on the real code."""

    def __init__(self, values):
        super().__init__()
        self.values = values

    def _get(self, name):
        n = self._name(name)
        if n not in self.values:
            self.missing = n
            return None
        return self.values[n]

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathAbort()
        return v

    def bool(self, name):
        v = self._get(name)
        return bool(v)

    def real(self, name, lo, hi, den=1000):
        v = self._get(name)
        if v is None:
            v = int(Fraction(lo) * den)
        return v / den

    def atom(self, name, hi=1000):
        v = self._get(name)
        return "id%05d" % (v or 0)

    def str(self, name, n, alphabet=None):
        name = self._name(name)
        a0 = (alphabet or [" "])[0]
        return "".join(chr(self.values.get("%s[%d]" % (name, k), ord(a0[0]))) for k in range(n))

    def strlen(self, name, lo, hi, alphabet=None):
        return self.str(name, self.int(name + ".len", lo, hi), alphabet)

    def dt(self, name, lo, hi, tz=UTC, grid=1):
        v = self._get(name)
        if v is None:
            v = -(-lo // grid)
        v *= grid
        naive = sdt.from_us(v)
        if tz is None:
            return naive
        return naive.replace(tzinfo=UTC).astimezone(tz)

    def dtf(self, name, lo, hi, tz=UTC, grid=1):
        v = self._get(name)
        if v is None:
            v = -(-lo // grid) * grid
        return sdt.from_us(v).replace(tzinfo=tz)

    def td(self, name, lo, hi, grid=1):
        v = self._get(name)
        if v is None:
            v = -(-lo // grid)
        return _d.timedelta(microseconds=v * grid)

    def digit(self, ch):
        return ord(ch) - 48

    def pick(self, table, i):
        return table[i]

    def split(self, v, limit=64):
        return v

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, c, msg):
        if not c:
            raise Violated(msg)

    def us(self, d):
        if d.tzinfo is None:
            return sdt.to_us(d)
        return sdt.to_us(d.astimezone(UTC))

    def wall(self, d):
        return sdt.to_us(d.replace(tzinfo=None))

    def mkdt(self, us, tz=UTC):
        return sdt.from_us(us).replace(tzinfo=UTC).astimezone(tz)

    def mktd(self, us):
        return _d.timedelta(microseconds=us)

    def mkreal(self, n, d):
        return n / d


# ---------------------------------------------------------------- installing the stand-ins

ACTIVE = None


def _clock(tz):
    return ACTIVE.now(tz)


FakeDT = sdt.make_fake_datetime(_clock)
RealDT = sdt.make_real_datetime(_clock)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __or__(cls, o):
        return int | o

    def __ror__(cls, o):
        return o | int


class FakeInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if is_sym(x):
            if hasattr(type(x), "__symint__"):
                return x.__symint__()
            if hasattr(x, "__trunc__"):
                return x.__trunc__()
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, n):
        return getattr(float, n)


class FakeFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if is_sym(x):
            if type(x) is SymReal:
                return x
            b = iterm(x)
            if b is not None:
                return SymReal(b, 1)
        return float(x)


class FakeDatetimeModule:
    """Stand-in for `import datetime` style access."""

    def __init__(self, dtcls, tdcls):
        self.datetime = dtcls
        self.timedelta = tdcls

    def __getattr__(self, n):
        return getattr(_d, n)


def contains_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth == 0:
        return False
    if type(x) in (list, tuple, set, frozenset):
        return any(contains_sym(i, depth - 1) for i in x)
    if type(x) is dict:
        return any(contains_sym(i, depth - 1) or contains_sym(k, 0) for k, i in x.items())
    return False


@contextlib.contextmanager
def installed(symbolic, extra=(), skip_modules=()):
    """Replace clock / datetime construction in every loaded asyncz module."""
    import calendar
    import random

    import pydantic

    undo = []

    def put(obj, name, val):
        undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def inject(mod, name, val):
        d = mod.__dict__
        undo.append((d, name, d.get(name, _MISSING)))
        d[name] = val

    def putc(cls, name, val):
        undo.append((cls, name, getattr(cls, name)))
        type.__setattr__(cls, name, val)

    dtc = FakeDT if symbolic else RealDT
    fake_mod = FakeDatetimeModule(dtc, sdt.FakeTimedelta if symbolic else _d.timedelta)
    mods = [m for n, m in list(sys.modules.items())
            if m is not None and (n == "asyncz" or n.startswith("asyncz.")) and n not in skip_modules]
    try:
        for m in mods:
            d = getattr(m, "__dict__", None)
            if d is None:
                continue
            for k, v in list(d.items()):
                if v is _d.datetime:
                    inject(m, k, dtc)
                elif v is _d:
                    inject(m, k, fake_mod)
                elif symbolic and v is _d.timedelta:
                    inject(m, k, sdt.FakeTimedelta)
                elif symbolic and v is _d.timezone:
                    inject(m, k, sdt.FakeTimezone)
                elif symbolic and v is calendar.monthrange:
                    inject(m, k, sdt.sym_monthrange)
                elif symbolic and v is calendar:
                    inject(m, k, _FakeCalendar())
            if symbolic:
                for k, v in list(d.items()):
                    if v is _re:
                        inject(m, k, FakeRe())
                    elif type(v) is _re.Pattern:
                        inject(m, k, SymPattern(v))
                    elif type(v) in (set, frozenset) and symstr.symset(v) is not None:
                        inject(m, k, symstr.symset(v))
                    elif isinstance(v, type) and getattr(v, "__module__", None) == m.__name__:
                        for ck, cv in list(vars(v).items()):
                            if type(cv) is _re.Pattern:
                                putc(v, ck, SymPattern(cv))
                            elif type(cv) in (set, frozenset) and not ck.startswith("__") and symstr.symset(cv) is not None:
                                putc(v, ck, symstr.symset(cv))
                if "str" not in d:
                    inject(m, "str", FakeStr)
                if "int" not in d:
                    inject(m, "int", FakeInt)
                if "float" not in d:
                    inject(m, "float", FakeFloat)
        put(random, "uniform", lambda a, b: ACTIVE.uniform(a, b))
        if symbolic:
            orig = pydantic.BaseModel.__init__

            def __init__(self, /, **data):
                if any(contains_sym(v) for v in data.values()):
                    _constraints(type(self), data)
                    m = type(self).model_construct(**data)
                    object.__setattr__(self, "__dict__", m.__dict__)
                    object.__setattr__(self, "__pydantic_fields_set__", m.__pydantic_fields_set__)
                    object.__setattr__(self, "__pydantic_extra__", m.__pydantic_extra__)
                    object.__setattr__(self, "__pydantic_private__", getattr(m, "__pydantic_private__", None))
                    return
                orig(self, **data)

            __init__.__pydantic_base_init__ = True
            undo.append((pydantic.BaseModel, "__init__", orig))
            pydantic.BaseModel.__init__ = __init__
        for target, name, val in extra:
            if isinstance(target, str):
                target = sys.modules[target]
            inject(target, name, val) if hasattr(target, "__file__") else put(target, name, val)
        yield
    finally:
        for obj, name, val in reversed(undo):
            if isinstance(obj, dict):
                if val is _MISSING:
                    obj.pop(name, None)
                else:
                    obj[name] = val
            elif isinstance(obj, type):
                type.__setattr__(obj, name, val)
            else:
                setattr(obj, name, val)


def _constraints(model, data):
    """The numeric field constraints pydantic would enforce on symbolic values."""
    for k, f in model.model_fields.items():
        v = data.get(k)
        if not is_sym(v):
            continue
        for md in f.metadata:
            for attr, op in (("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b), ("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b)):
                b = getattr(md, attr, None)
                if b is not None and not op(v, b):
                    raise ValueError("field constraint %s %s" % (attr, b))


class _FakeCalendar:
    monthrange = staticmethod(sdt.sym_monthrange)

    def __getattr__(self, n):
        import calendar

        return getattr(calendar, n)


_MISSING = object()

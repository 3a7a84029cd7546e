"""Symbolic datetime / timedelta proxies.

SymDT  = wall-clock microseconds since 1970-01-01 (an Int term) + tzinfo + fold
SymTD  = microseconds (an Int term)

Time zones: None, fixed offsets (any tzinfo whose utcoffset is constant), and
ZoneInfo zones through a table of the transitions inside the declared window.
Calendar fields use a month table over the declared window.
"""
from __future__ import annotations

import calendar
import datetime as _d
from bisect import bisect_right
from fractions import Fraction

import z3

from .engine import Inconclusive, Unsupported, cur
from .values import SymBool, SymInt, SymReal, bterm, floordiv, iterm, is_sym

DT, TD, DATE = _d.datetime, _d.timedelta, _d.date
EPOCH = DT(1970, 1, 1)
US = 1_000_000
DAY = 86400 * US


def to_us(naive):
    delta = naive.replace(tzinfo=None) - EPOCH
    return (delta.days * 86400 + delta.seconds) * US + delta.microseconds


def from_us(us):
    return EPOCH + TD(microseconds=us)


def td_us(td):
    return (td.days * 86400 + td.seconds) * US + td.microseconds


class Window:
    """Range of local dates the calendar tables cover."""

    lo_year = 2019
    hi_year = 2032  # exclusive


def _month_table():
    e = cur()
    tab = getattr(e, "_month_table", None)
    if tab is None:
        lo, hi = Window.lo_year, Window.hi_year
        tab = []
        for y in range(lo, hi):
            for m in range(1, 13):
                tab.append((y, m, (DATE(y, m, 1) - DATE(1970, 1, 1)).days))
        tab.append((hi, 1, (DATE(hi, 1, 1) - DATE(1970, 1, 1)).days))
        e._month_table = tab
    return tab


# ---------------------------------------------------------------- time zones


def zone_table(tz):
    """(initial offset us, [(utc_us, offset_us)...]) for tz inside the window."""
    e = cur()
    cache = e.__dict__.setdefault("_zones", {})
    key = id(tz)
    if key in cache:
        return cache[key][1]
    if isinstance(tz, _d.timezone):
        r = (td_us(tz.utcoffset(None)), [])
    else:
        def off(u):
            return td_us((from_us(u).replace(tzinfo=_d.timezone.utc)).astimezone(tz).utcoffset())

        a = to_us(DT(Window.lo_year, 1, 1)) - 40 * DAY
        b = to_us(DT(Window.hi_year, 1, 1)) + 40 * DAY
        trans = []
        cur_off = off(a)
        first = cur_off
        t = a
        step = 7 * DAY
        while t < b:
            n = min(t + step, b)
            o = off(n)
            if o != cur_off:
                lo, hi = t, n
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if off(mid) == cur_off:
                        lo = mid
                    else:
                        hi = mid
                trans.append((hi, off(hi)))
                cur_off = o
            t = n
        r = (first, trans)
    cache[key] = (tz, r)
    return r


def _boundterm(t):
    return z3.simplify(t)


def offset_of_utc(tz, u):
    first, trans = zone_table(tz)
    t = z3.IntVal(first)
    for when, o in trans:
        t = z3.If(u >= when, z3.IntVal(o), t)
    return z3.simplify(t)


def fold_of_utc(tz, u):
    first, trans = zone_table(tz)
    prev = first
    ors = []
    for when, o in trans:
        if o < prev:
            ors.append(z3.And(u >= when, u < when + (prev - o)))
        prev = o
    return z3.simplify(z3.Or(*ors)) if ors else z3.BoolVal(False)


def offset_of_wall(tz, w, fold):
    first, trans = zone_table(tz)
    t = z3.IntVal(first)
    prev = first
    for when, o in trans:
        th = z3.If(fold, z3.IntVal(when + min(prev, o)), z3.IntVal(when + max(prev, o)))
        t = z3.If(w >= th, z3.IntVal(o), t)
        prev = o
    return z3.simplify(t)


FALSE = z3.BoolVal(False)


def _is_dt(x):
    return type(x) is SymDT or (isinstance(x, DT) and not is_sym(x))


def lift_dt(x):
    if type(x) is SymDT:
        return x
    if isinstance(x, DT) and not is_sym(x):
        return SymDT(z3.IntVal(to_us(x)), x.tzinfo, z3.BoolVal(bool(x.fold)))
    return None


def lift_td(x):
    if type(x) is SymTD:
        return x
    if isinstance(x, TD) and not is_sym(x):
        return SymTD(z3.IntVal(td_us(x)))
    return None


class SymTD:
    __slots__ = ("_us", "prov")
    __symx__ = True

    def __init__(self, us, prov=None):
        self._us = us if us is None else z3.simplify(us)
        self.prov = prov

    @property
    def us(self):
        if self._us is None:
            a, b = self.prov
            self._us = z3.simplify(a.wall - b.wall)
        return self._us

    @property
    def __class__(self):
        return TD

    @property
    def days(self):
        return SymInt(floordiv(self.us, z3.IntVal(DAY)))

    @property
    def seconds(self):
        return SymInt(z3.simplify((self.us % DAY) / US))

    @property
    def microseconds(self):
        return SymInt(z3.simplify(self.us % US))

    def total_seconds(self):
        return SymReal(self.us, US)

    def __bool__(self):
        return cur().decide(self.us != 0)

    def __hash__(self):
        return 5

    def __neg__(self):
        return SymTD(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymTD(z3.If(self.us >= 0, self.us, -self.us))

    def __add__(self, o):
        x = lift_td(o)
        if x is not None:
            return SymTD(self.us + x.us)
        if _is_dt(o):
            return lift_dt(o) + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        x = lift_td(o)
        return NotImplemented if x is None else SymTD(self.us - x.us)

    def __rsub__(self, o):
        x = lift_td(o)
        if x is not None:
            return SymTD(x.us - self.us)
        if _is_dt(o):
            return lift_dt(o) - self
        return NotImplemented

    def __mul__(self, o):
        b = iterm(o)
        if b is not None:
            return SymTD(self.us * b)
        if isinstance(o, float):
            r = SymReal(self.us, 1) * o
            return SymTD(r.__round__().t)
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        x = lift_td(o)
        if x is not None:
            return SymInt(floordiv(self.us, x.us))
        b = iterm(o)
        return NotImplemented if b is None else SymTD(floordiv(self.us, b))

    def __rfloordiv__(self, o):
        x = lift_td(o)
        return NotImplemented if x is None else SymInt(floordiv(x.us, self.us))

    def __mod__(self, o):
        x = lift_td(o)
        if x is None:
            return NotImplemented
        from .values import floormod

        return SymTD(floormod(self.us, x.us))

    def __rmod__(self, o):
        x = lift_td(o)
        return NotImplemented if x is None else x % self

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        x = lift_td(o)
        if x is not None:
            return SymReal(self.us, 1) / SymInt(x.us)
        return SymTD((SymReal(self.us, 1) / o).__round__().t)

    def __rtruediv__(self, o):
        x = lift_td(o)
        return NotImplemented if x is None else x / self

    def _cmp(self, o, f):
        x = lift_td(o)
        return NotImplemented if x is None else SymBool(f(self.us, x.us))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __repr__(self):
        return "<symtimedelta>"

    def __format__(self, s):
        return "<symtimedelta>"


class SymDT:
    """wall: Int term (us), tz: tzinfo|None, fold: Bool term, f: known calendar fields."""

    __slots__ = ("_wall", "tz", "foldt", "f")
    __symx__ = True

    def __init__(self, wall, tz=None, fold=FALSE, fields=None):
        self._wall = None if wall is None else z3.simplify(wall)
        self.tz = tz
        self.foldt = fold
        self.f = fields

    @property
    def wall(self):
        if self._wall is None:
            f = self.f
            self._wall = z3.simplify(
                (((dayno(f) * 24 + f["hour"]) * 60 + f["minute"]) * 60 + f["second"]) * US + f["microsecond"])
        return self._wall

    @property
    def __class__(self):
        return DT

    # -- basic attributes
    @property
    def tzinfo(self):
        return self.tz

    @property
    def fold(self):
        t = z3.simplify(self.foldt)
        if z3.is_false(t):
            return 0
        if z3.is_true(t):
            return 1
        return SymInt(z3.If(t, z3.IntVal(1), z3.IntVal(0)))

    def _off(self):
        if self.tz is None:
            return None
        return offset_of_wall(self.tz, self.wall, self.foldt)

    def _utc(self):
        if self.tz is None:
            raise Unsupported("UTC instant of a naive datetime (depends on the host zone)")
        return z3.simplify(self.wall - self._off())

    def utcoffset(self):
        return None if self.tz is None else SymTD(self._off())

    def dst(self):
        raise Unsupported("dst()")

    def tzname(self):
        return "<symtz>"

    def timestamp(self):
        if self.tz is None:
            raise Unsupported("timestamp() of a naive datetime")
        return SymReal(None, US, self)

    def astimezone(self, tz=None):
        if tz is None:
            raise Unsupported("astimezone() to the host zone")
        if tz is self.tz:
            return self
        if self.f is not None and self.tz is not None:
            a, b = zone_table(self.tz), zone_table(tz)
            if not a[1] and not b[1]:
                r = comp_add(self.f, z3.IntVal(b[0] - a[0]))
                if r is not None:
                    return SymDT(None, tz, FALSE, r)
        return from_utc_term(self._utc(), tz)

    def replace(self, **kw):
        tz = kw.pop("tzinfo", self.tz)
        fold = self.foldt
        if "fold" in kw:
            fv = kw.pop("fold")
            fold = z3.BoolVal(bool(fv)) if not is_sym(fv) else (iterm(fv) == 1)
        if not kw:
            return SymDT(self._wall, tz, fold, self.f)
        if set(kw) == {"microsecond"}:
            m = kw["microsecond"]
            mt = iterm(m)
            if self.f is not None:
                f = dict(self.f)
                f["microsecond"] = mt
                return SymDT(None, tz, fold, f)
            return SymDT(self.wall - self.wall % US + mt, tz, fold)
        vals = dict(year=self.year, month=self.month, day=self.day, hour=self.hour,
                    minute=self.minute, second=self.second, microsecond=self.microsecond)
        vals.update(kw)
        r = make_dt(tzinfo=tz, **vals)
        r = lift_dt(r)
        r.foldt = fold
        return r

    # -- calendar fields
    def _day(self):
        if self.f is not None:
            return dayno(self.f)
        return z3.simplify(self.wall / DAY)

    def _field(self, name):
        if self.f is not None and name in self.f:
            return SymInt(self.f[name])
        w = self.wall
        if name == "microsecond":
            return SymInt(z3.simplify(w % US))
        if name in ("hour", "minute", "second"):
            tod = w % DAY
            if name == "hour":
                return SymInt(z3.simplify(tod / (3600 * US)))
            if name == "minute":
                return SymInt(z3.simplify((tod / (60 * US)) % 60))
            return SymInt(z3.simplify((tod / US) % 60))
        e = cur()
        day = self._day()
        tab = _month_table()
        lo, hi = tab[0][2], tab[-1][2]
        if e.decide(z3.Or(day < lo, day >= hi)):
            raise CalendarWindow("date outside the %d..%d calendar window" % (Window.lo_year, Window.hi_year - 1))
        cache = e.__dict__.setdefault("_cal", {})
        key = day.get_id()
        if key not in cache or not cache[key][0].eq(day):
            y = z3.IntVal(tab[0][0])
            m = z3.IntVal(tab[0][1])
            s = z3.IntVal(tab[0][2])
            for yy, mm, st in tab[1:-1]:
                c = day >= st
                m = z3.If(c, z3.IntVal(mm), m)
                s = z3.If(c, z3.IntVal(st), s)
                if mm == 1:
                    y = z3.If(c, z3.IntVal(yy), y)
            cache[key] = (day, dict(year=y, month=m, day=z3.simplify(day - s + 1)))
        return SymInt(z3.simplify(cache[key][1][name]))

    year = property(lambda self: self._field("year"))
    month = property(lambda self: self._field("month"))
    day = property(lambda self: self._field("day"))
    hour = property(lambda self: self._field("hour"))
    minute = property(lambda self: self._field("minute"))
    second = property(lambda self: self._field("second"))
    microsecond = property(lambda self: self._field("microsecond"))

    def weekday(self):
        if self.f is not None and z3.is_int_value(z3.simplify(self.f["day"])) is False:
            return SymInt(comp_weekday(self.f))
        return SymInt(z3.simplify((self._day() + 3) % 7))

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return SymInt(z3.simplify(self._day() + DATE(1970, 1, 1).toordinal()))

    def _yday0(self):
        tab = _month_table()
        day = self._day()
        s = z3.IntVal(tab[0][2])
        for yy, mm, st in tab[:-1]:
            if mm == 1:
                s = z3.If(day >= st, z3.IntVal(st), s)
        return z3.simplify(day - s)

    def isocalendar(self):
        # ISO week via the Thursday of this week
        day = self._day()
        wd = (day + 3) % 7
        thursday = SymDT((day - wd + 3) * DAY)
        y = thursday.year
        wk = z3.simplify(thursday._yday0() / 7 + 1)
        return (y, SymInt(wk), SymInt(z3.simplify(wd + 1)))

    def date(self):
        return SymDT(self._day() * DAY, None, FALSE)

    def timetuple(self):
        raise Unsupported("timetuple")

    utctimetuple = timetuple

    # -- formatting
    def strftime(self, f):
        return "<symdt>"

    def isoformat(self, *a, **k):
        return "<symdt>"

    __str__ = __repr__ = lambda self: "<symdt>"

    def __format__(self, s):
        return "<symdt>"

    def __hash__(self):
        return 11

    def __bool__(self):
        return True

    # -- arithmetic
    def __add__(self, o):
        x = lift_td(o)
        if x is None:
            return NotImplemented
        if x.prov is not None:
            a, b = x.prov
            if same_comp(b, self):
                return SymDT(a._wall, self.tz, FALSE, a.f)
        if self.f is not None:
            r = comp_add(self.f, x.us)
            if r is not None:
                return SymDT(None, self.tz, FALSE, r)
        return SymDT(self.wall + x.us, self.tz)

    __radd__ = __add__

    def __sub__(self, o):
        x = lift_td(o)
        if x is not None:
            return self + SymTD(-x.us)
        y = lift_dt(o)
        if y is None:
            return NotImplemented
        if self.f is not None and y.f is not None and (self.tz is y.tz):
            return SymTD(None, (self, y))
        return SymTD(self._diff(y))

    def __rsub__(self, o):
        y = lift_dt(o)
        if y is None:
            return NotImplemented
        return SymTD(y._diff(self))

    def _diff(self, y, eq=False):
        if self.tz is y.tz:
            return self.wall - y.wall
        if (self.tz is None) != (y.tz is None):
            raise TypeError("can't subtract offset-naive and offset-aware datetimes")
        return self._utc() - y._utc()

    def _cmp(self, o, f):
        y = lift_dt(o)
        if y is None:
            return NotImplemented
        if (self.tz is None) != (y.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        if self._comp_ok(y):
            return SymBool(z3.simplify(lex(self.f, y.f, f)))
        return SymBool(f(z3.simplify(self._diff(y)), 0))

    def _comp_ok(self, y):
        """Comparable component by component: same tz object, or equal constant offsets."""
        if self.f is None:
            return False
        if y.f is None:
            if not z3.is_int_value(y.wall):
                return False
            c = from_us(y.wall.as_long())
            y.f = {k: z3.IntVal(getattr(c, k)) for k in COMPS}
        if self.tz is y.tz:
            return True
        a, b = zone_table(self.tz), zone_table(y.tz)
        return not a[1] and not b[1] and a[0] == b[0]

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        y = lift_dt(o)
        if y is None:
            return NotImplemented
        if (self.tz is None) != (y.tz is None):
            return False
        if self._comp_ok(y):
            return SymBool(z3.simplify(z3.And(*[self.f[c] == y.f[c] for c in COMPS])))
        return SymBool(z3.simplify(self._diff(y) == 0))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if r is False:
            return True
        return ~r

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


class CalendarWindow(Unsupported):
    pass


# ---------------------------------------------------------------- component form

COMPS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def month_index(f):
    return z3.simplify((f["year"] - Window.lo_year) * 12 + (f["month"] - 1))


def month_ite(f, fn):
    """fn(table entry) selected by the month of f (binary search ITE)."""
    tab = _month_table()
    idx = month_index(f)
    n = len(tab) - 1
    if z3.is_int_value(idx):
        i = idx.as_long()
        if 0 <= i < n:
            return z3.IntVal(fn(tab[i]))
        raise CalendarWindow("month outside the calendar window")

    def rec(a, b):
        if b - a == 1:
            return z3.IntVal(fn(tab[a]))
        mid = (a + b) // 2
        return z3.If(idx < mid, rec(a, mid), rec(mid, b))

    if cur().decide(z3.Or(idx < 0, idx >= n)):
        raise CalendarWindow("month outside the calendar window")
    return rec(0, n)


def dayno(f):
    if "dayno" not in f:
        f["dayno"] = z3.simplify(month_ite(f, lambda t: t[2]) + f["day"] - 1)
    return f["dayno"]


def comp_weekday(f):
    if "wday" not in f:
        f["wday"] = z3.simplify((month_ite(f, lambda t: (t[2] + 3) % 7) + f["day"] - 1) % 7)
    return f["wday"]


def same_comp(a, b):
    if a is b:
        return True
    if a.f is None or b.f is None:
        return False
    return all(z3.simplify(a.f[c]).eq(z3.simplify(b.f[c])) for c in COMPS)


def lex(a, b, f):
    """Lexicographic comparison of component dicts; f is the operator on (x, y)."""
    x, y = z3.Int("__x"), z3.Int("__y")
    strict = f(x, y)
    op = strict.decl().kind()
    lt = op in (z3.Z3_OP_LT, z3.Z3_OP_LE)
    incl = op in (z3.Z3_OP_LE, z3.Z3_OP_GE)
    acc = z3.BoolVal(incl)
    for c in reversed(COMPS):
        p, q = a[c], b[c]
        acc = z3.Or(p < q if lt else p > q, z3.And(p == q, acc))
    return acc


def _small_divmod(t, n):
    """(quotient, remainder) of t by the constant n, with ITEs when the quotient is in -1..1."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        q, r = divmod(t.as_long(), n)
        return z3.IntVal(q), z3.IntVal(r)
    e = cur()
    if e.entails(z3.And(t >= 0, t < n)):
        return z3.IntVal(0), t
    if e.entails(z3.And(t >= -n, t < 2 * n)):
        return (z3.If(t < 0, z3.IntVal(-1), z3.If(t >= n, z3.IntVal(1), z3.IntVal(0))),
                z3.If(t < 0, t + n, z3.If(t >= n, t - n, t)))
    return z3.simplify(t / n), z3.simplify(t % n)


def comp_add(f, us):
    r = dict(year=f["year"], month=f["month"], day=f["day"])
    carry = z3.simplify(us)
    whole = None
    unit = 1
    if z3.is_int_value(carry):
        # a multiple of a larger unit leaves the smaller components alone
        pass
    for c, n in (("microsecond", US), ("second", 60), ("minute", 60), ("hour", 24)):
        if z3.is_int_value(carry):
            k = carry.as_long()
            if k == 0:
                r[c] = f[c]
                continue
            q0, r0 = divmod(k, n)
            q, r[c] = _small_divmod(f[c] + r0, n)
            carry = z3.simplify(q + q0)
        else:
            carry, r[c] = _small_divmod(f[c] + carry, n)
            carry = z3.simplify(carry)
    if z3.is_int_value(carry) and carry.as_long() == 0:
        return r
    e = cur()
    if not e.entails(z3.And(carry >= -1, carry <= 1)):
        return None
    y, m, d = f["year"], f["month"], f["day"]
    dim = dim_term(y, m)
    over = z3.And(carry == 1, d == dim)
    under = z3.And(carry == -1, d == 1)
    pm = z3.If(m == 1, z3.IntVal(12), m - 1)
    py = z3.If(m == 1, y - 1, y)
    r["day"] = z3.simplify(z3.If(over, z3.IntVal(1), z3.If(under, dim_term(py, pm), d + carry)))
    r["month"] = z3.simplify(z3.If(over, z3.If(m == 12, z3.IntVal(1), m + 1), z3.If(under, pm, m)))
    r["year"] = z3.simplify(z3.If(z3.And(over, m == 12), y + 1, z3.If(under, py, y)))
    return r


def from_utc_term(u, tz):
    u = z3.simplify(u)
    if tz is None:
        raise Unsupported("conversion to the host zone")
    first, trans = zone_table(tz)
    if not trans:
        return SymDT(u + first, tz)
    return SymDT(u + offset_of_utc(tz, u), tz, fold_of_utc(tz, u))


def make_dt(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
    """datetime(...) with possibly symbolic fields."""
    parts = (year, month, day, hour, minute, second, microsecond)
    if not any(is_sym(p) for p in parts) and not is_sym(fold):
        return DT(year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)
    if any(p is None for p in parts):
        raise TypeError("function missing required argument")
    e = cur()
    y, mo, d, h, mi, s, us = [iterm(p) for p in parts]
    ok = z3.And(mo >= 1, mo <= 12, h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, us >= 0, us < US)
    if not e.decide(ok):
        raise ValueError("datetime field out of range")
    lo, hi = Window.lo_year, Window.hi_year
    if e.decide(z3.Or(y < lo, y >= hi)):
        if not e.decide(z3.And(y >= 1, y <= 9999)):
            raise ValueError("year is out of range")
        # outside the table: only concrete-able values
        yc = e.concretize(y, what="year")
        mc = e.concretize(mo, what="month")
        ms = (DATE(yc, mc, 1) - DATE(1970, 1, 1)).days
        dim = z3.IntVal(calendar.monthrange(yc, mc)[1])
        ms = z3.IntVal(ms)
    else:
        ms = None
        dim = dim_term(y, mo)
    if not e.decide(z3.And(d >= 1, d <= dim)):
        raise ValueError("day is out of range for month")
    f = dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s, microsecond=us)
    if ms is not None:
        f["dayno"] = z3.simplify(ms + d - 1)
    return SymDT(None, tzinfo, z3.BoolVal(bool(fold)) if not is_sym(fold) else iterm(fold) == 1, f)


def dim_term(y, mo):
    leap = z3.Or(z3.And(y % 4 == 0, y % 100 != 0), y % 400 == 0)
    return z3.simplify(z3.If(mo == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                             z3.If(z3.Or(mo == 4, mo == 6, mo == 9, mo == 11), z3.IntVal(30), z3.IntVal(31))))


def sym_monthrange(year, month):
    if not is_sym(year) and not is_sym(month):
        return calendar.monthrange(year, month)
    y, m = iterm(year), iterm(month)
    first = make_dt(year, month, 1)
    return (lift_dt(first).weekday(), SymInt(dim_term(y, m)))


# ---------------------------------------------------------------- module stand-ins


def make_td(*a, **k):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    vals = dict(zip(names, a))
    vals.update(k)
    if not any(is_sym(v) for v in vals.values()):
        return TD(**vals)
    mult = dict(days=DAY, seconds=US, microseconds=1, milliseconds=1000, minutes=60 * US,
                hours=3600 * US, weeks=7 * DAY)
    total = z3.IntVal(0)
    for n, v in vals.items():
        b = iterm(v)
        if b is not None:
            total = total + b * mult[n]
        elif type(v) is SymReal:
            total = total + (v * mult[n]).__round__().t
        else:
            total = total + z3.IntVal(round(Fraction(v) * mult[n]))
    return SymTD(total)


class _TDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, TD)

    def __subclasscheck__(cls, c):
        return issubclass(c, TD)

    def __getattr__(cls, n):
        return getattr(TD, n)

    def __eq__(cls, o):
        return o is cls or o is TD

    def __hash__(cls):
        return hash(TD)


class FakeTimedelta(metaclass=_TDMeta):
    def __new__(cls, *a, **k):
        return make_td(*a, **k)


class _TZMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _d.timezone)

    def __subclasscheck__(cls, c):
        return issubclass(c, _d.timezone)

    def __getattr__(cls, n):
        return getattr(_d.timezone, n)

    def __eq__(cls, o):
        return o is cls or o is _d.timezone

    def __hash__(cls):
        return hash(_d.timezone)


class FakeTimezone(metaclass=_TZMeta):
    """timezone(offset): an offset below one day is made concrete (one path per value)."""

    def __new__(cls, offset, *a):
        if type(offset) is SymTD:
            if not (-86400 * US < SymInt(offset.us)) or not (SymInt(offset.us) < 86400 * US):
                raise ValueError("offset must be a timedelta strictly between -timedelta(hours=24) and timedelta(hours=24).")
            offset = TD(microseconds=cur().concretize(offset.us, limit=6000))
        return _d.timezone(offset, *a)


class _DTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, DT)

    def __subclasscheck__(cls, c):
        return issubclass(c, DT)

    def __getattr__(cls, n):
        return getattr(DT, n)

    def __eq__(cls, o):
        return o is cls or o is DT

    def __hash__(cls):
        return hash(DT)


def make_fake_datetime(clock):
    """clock(tz) -> the current instant (symbolic or real)."""

    class FakeDatetime(metaclass=_DTMeta):
        def __new__(cls, *a, **k):
            return make_dt(*a, **k)

        @staticmethod
        def now(tz=None):
            return clock(tz)

        @staticmethod
        def utcnow():
            return clock(_d.timezone.utc).replace(tzinfo=None)

        @staticmethod
        def fromtimestamp(ts, tz=None):
            if not is_sym(ts):
                return DT.fromtimestamp(ts, tz)
            r = ts if type(ts) is SymReal else SymReal(iterm(ts), 1)
            if r.prov is not None and r.prov.f is not None and tz is not None and not zone_table(tz)[1] and not zone_table(r.prov.tz)[1]:
                return r.prov.astimezone(tz)
            if US % r.d == 0:
                u = r.n * (US // r.d)
            else:
                u = (r * US).__round__().t
            return from_utc_term(u, tz)

        @staticmethod
        def combine(d, t, tzinfo=None):
            if is_sym(d):
                if t == _d.time():
                    return SymDT(d._day() * DAY, tzinfo if tzinfo is not None else t.tzinfo)
                raise Unsupported("combine with symbolic date")
            return DT.combine(d, t) if tzinfo is None else DT.combine(d, t, tzinfo)

        min = DT.min
        max = DT.max

    return FakeDatetime


def make_real_datetime(clock):
    """Concrete-mode stand-in: a real datetime class with a scripted clock."""

    class _M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, DT)

        def __subclasscheck__(cls, c):
            return issubclass(c, DT)

        def __eq__(cls, o):
            return o is cls or o is DT

        def __hash__(cls):
            return hash(DT)

    class ScriptedDatetime(DT, metaclass=_M):
        def __new__(cls, *a, **k):
            return DT(*a, **k)

        @classmethod
        def now(cls, tz=None):
            return clock(tz)

        @classmethod
        def utcnow(cls):
            return clock(_d.timezone.utc).replace(tzinfo=None)

        @classmethod
        def fromtimestamp(cls, ts, tz=None):
            return DT.fromtimestamp(ts, tz)

        @classmethod
        def combine(cls, *a, **k):
            return DT.combine(*a, **k)

        @classmethod
        def fromisoformat(cls, *a):
            return DT.fromisoformat(*a)

        @classmethod
        def strptime(cls, *a):
            return DT.strptime(*a)

    return ScriptedDatetime

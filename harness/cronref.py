"""Reference meaning of cron expressions, written from the documentation."""
import z3

from symx import dt as sdt
from symx.ctx import And, Eq, Ite, Or
from symx.values import SymInt, is_sym

MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
WD = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
LIM = dict(year=(1970, 9999), month=(1, 12), day=(1, 31), week=(1, 53), day_of_week=(0, 6), hour=(0, 23), minute=(0, 59),
           second=(0, 59))
ORDER = ["year", "month", "day", "week", "day_of_week", "hour", "minute", "second"]
DEFAULTS = dict(year="*", month="1", day="1", week="*", day_of_week="*", hour="0", minute="0", second="0")


def dim(y, m):
    leap = Or(And(Eq(y % 4, 0), Or(y % 100 > 0, Eq(y % 400, 0))))
    return Ite(Eq(m, 2), Ite(leap, 29, 28), Ite(Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11)), 30, 31))


def full_spec(spec):
    """Fields after the least significant given one take their minimum, the others '*'."""
    given = [f for f in ORDER if f in spec]
    last = ORDER.index(given[-1]) if given else len(ORDER)
    return {f: str(spec[f]) if f in spec else (DEFAULTS[f] if i > last else "*") for i, f in enumerate(ORDER)}


def one(expr, field, v, d):
    lo, hi = LIM[field]
    expr = expr.strip().lower()
    step = None
    if field == "day" and expr == "last":
        return Eq(v, dim(d.year, d.month))
    if field == "day" and " " in expr:
        pos, wd = expr.split()
        wd = WD.index(wd)
        if pos == "last":
            return And(Eq(d.weekday(), wd), v + 7 > dim(d.year, d.month))
        n = ["1st", "2nd", "3rd", "4th", "5th"].index(pos)
        return And(Eq(d.weekday(), wd), v > 7 * n, v <= 7 * n + 7)
    if "/" in expr:
        expr, st = expr.split("/")
        step = int(st)
    if expr == "*":
        a, b = lo, hi
    else:
        names = MONTHS if field == "month" else WD if field == "day_of_week" else None
        off = 1 if field == "month" else 0

        def num(s):
            return int(s) if s.isdigit() else names.index(s) + off

        if "-" in expr:
            a, b = [num(s) for s in expr.split("-")]
        else:
            a = num(expr)
            b = hi if step else a
    c = [v >= a, v <= b]
    if step:
        c.append(Eq((v - a) % step, 0))
    return And(*c)


def value(field, d):
    if field == "week":
        return d.isocalendar()[1]
    if field == "day_of_week":
        return d.weekday()
    return getattr(d, field)


def match(spec, d):
    """d has a zero microsecond part."""
    out = []
    for f, ex in full_spec(spec).items():
        if ex == "*":
            continue
        v = value(f, d)
        out.append(Or(*[one(p, f, v, d) for p in ex.split(",")]))
    return And(*out) if out else True

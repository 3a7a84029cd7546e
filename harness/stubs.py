"""Environment stubs shared by the harnesses (all symbolic-contract based)."""
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or


def _trigger_base():
    from asyncz.triggers.base import BaseTrigger

    return BaseTrigger


def make_trigger(times, relative=False, tz=UTC, alias="stub", fail=None, log=None, **kw):
    """A trigger whose fire times are `times` (strictly increasing, possibly symbolic).

    relative=False: cron-like (earliest time after `previous` and not before `now`);
    relative=True: interval-like (earliest time after `previous`; `now` only used without a previous time).
    fail: optional callable(call number) -> exception or None
    """
    B = _trigger_base()
    al = alias

    class StubTrigger(B):
        alias = al

        def __init__(self):
            super().__init__(**kw)
            self.times = list(times)
            self.calls = 0

        def get_next_trigger_time(self, timezone, previous_time, now=None):
            n = self.calls
            self.calls = n + 1
            if log is not None:
                log.append((previous_time, now))
            if fail is not None:
                exc = fail(n)
                if exc is not None:
                    raise exc
            start = 0
            known = False
            if previous_time is not None:
                for i, s in enumerate(self.times):
                    if s is previous_time:
                        start, known = i + 1, True
            for s in self.times[start:]:
                if previous_time is not None and not known and not (s > previous_time):
                    continue
                if (previous_time is None or not relative) and now is not None and not (s >= now):
                    continue
                return s
            return None

        def __str__(self):
            return "stub"

        __repr__ = __str__

    return StubTrigger()


def schedule(ctx, name, n, lo=T0, hi=T0 + 4 * DAY, grid=1, tz=UTC, mindelta=1):
    """n strictly increasing instants."""
    out = []
    for i in range(n):
        d = ctx.dt("%s%d" % (name, i), lo, hi, tz, grid)
        if out:
            ctx.assume(d > out[-1])
        out.append(d)
    return out

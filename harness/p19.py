"""P19 start and shutdown: reference counting, pending tasks, shutdown tasks."""
import asyncz.schedulers.asyncio  # noqa: F401
import asyncz.stores.memory  # noqa: F401
from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "all sequences of up to five (thorough: six) operations out of start, paused start, shutdown, pause, resume, add; up to three pending tasks of any kind with arbitrary times and start-up delay; up to three shutdown tasks in two stores that succeed, fail or are coroutines; a failure of any executor, store or task during start"
OUTSIDE = "threads of their own event loops (the loop is modelled; callbacks run in order), the process pool's worker processes, uwsgi"
ASSUMPTIONS = ["call_soon_threadsafe runs callbacks once, in order"]
LO, HI = T0, T0 + 4 * DAY


class FakeAsyncio:
    """asyncio as the schedulers see it, on the model loop."""

    def __init__(self, loop):
        self.loop = loop

    def get_running_loop(self):
        return self.loop

    def gather(self, *coros, **kw):
        for c in coros:
            drive(c)

        async def done():
            return [None] * len(coros)

        return done()

    async def to_thread(self, fn, *a):
        return fn(*a)

    def __getattr__(self, n):
        import asyncio

        return getattr(asyncio, n)


CUR = FakeAsyncio(None)


def drive(x):
    if not hasattr(x, "send"):
        return x
    try:
        x.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("coroutine waits for something unmodelled")


PATCH = [("asyncz.schedulers.asyncio", "asyncio", CUR), ("asyncz.schedulers.base", "asyncio", CUR)]


def build(ctx, kind, log, executors=("default",), stores=("default",), fail=None, keep=True, **config):
    """A scheduler of the given kind whose executors and stores record their life cycle."""
    from asyncz.executors.base import BaseExecutor
    from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler
    from asyncz.schedulers.base import BaseScheduler
    from asyncz.stores.memory import MemoryStore

    loop = W.Loop(log)
    CUR.loop = loop

    def maybe(what):
        if fail is not None and fail(what):
            raise RuntimeError("cannot " + what)

    class E(BaseExecutor):
        def start(self, scheduler, alias):
            log.append(("estart", alias))
            self.halias = alias
            maybe("start executor " + alias)
            super().start(scheduler, alias)

        def shutdown(self, wait=True):
            log.append(("estop", self.halias, wait))

        def do_send_task(self, task, run_times):
            log.append(("run", task.id))
            self.run_task_success(task.id, [])

    class S(MemoryStore):
        def start(self, scheduler, alias):
            log.append(("sstart", alias))
            self.halias = alias
            maybe("start store " + alias)
            super().start(scheduler, alias)

        def shutdown(self):
            log.append(("sstop", self.halias))
            if not keep:
                super().shutdown()

        def add_task(self, task):
            maybe("add")
            log.append(("sadd", self.halias, task.id))
            super().add_task(task)

    base = dict(base=BaseScheduler, asyncio=AsyncIOScheduler, native=NativeAsyncIOScheduler)[kind]

    class H(base):
        def wakeup(self):
            log.append(("wakeup",))
            if kind != "base":
                super().wakeup()

    kw = dict(timezone=UTC, identity="s", **config)
    if kind == "asyncio":
        kw["event_loop"] = loop
    s = H(**kw)
    if kind == "base":
        s.event_loop = loop
    for e in executors:
        s.add_executor(E(), e)
    for st in stores:
        s.add_store(S(), st)
    s.hloop = loop
    W.listen(s, log)
    return s


def call(s, name, /, *a, **kw):
    """Call and let the loop come to rest; -> (result, exception)."""
    n = len(s.hloop.queue)
    try:
        r = drive(getattr(s, name)(*a, **kw))
        exc = None
    except Exception as e:
        r, exc = None, e
    while s.hloop.queue:
        fn, args = s.hloop.queue.pop(0)
        try:
            drive(fn(*args))
        except Exception as e:
            exc = e
        n += 1
        assert n < 50
    return r, exc


def codes(log):
    return [e[1].code for e in log.kinds("event")]


OPS = ["start", "start paused", "shutdown", "pause", "resume", "add"]


def lifecycle(ctx, kind, steps, first=()):
    from asyncz.enums import SchedulerState
    from asyncz.events.constants import SCHEDULER_PAUSED, SCHEDULER_RESUMED, SCHEDULER_SHUTDOWN, SCHEDULER_START
    from asyncz.exceptions import SchedulerNotRunningError

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = build(ctx, kind, log, executors=("default", "second"))
    refs, state, pending, stored, n = 0, "stopped", [], [], 0
    for i in range(steps):
        op = first[i] if i < len(first) else ctx.choice("op", OPS)
        del log[:]
        want = []
        if op.startswith("start"):
            r, exc = call(s, "start", *([True] if op == "start paused" else []))
            ctx.check(exc is None, "start fails")
            ctx.check(r == (refs == 0), "the result of start does not tell whether the scheduler was started")
            started = refs == 0
            refs += 1
            if started:
                state = "paused" if op == "start paused" else "running"
                want = [SCHEDULER_START]
                stored += pending
                pending = []
            ctx.check(len(log.kinds("estart")) == (2 if started else 0) and len(log.kinds("sstart")) == (1 if started else 0), "executors and stores are not started exactly once")
            ctx.check((len(log.kinds("wakeup")) >= 1) == (started and state == "running"), "a started scheduler is not woken (or a paused one is)")
        elif op == "shutdown":
            wait = ctx.flag("wait")
            r, exc = call(s, "shutdown", wait)
            if refs == 0:
                ctx.check(isinstance(exc, SchedulerNotRunningError), "shutting down a stopped scheduler is not reported")
                ctx.reach("not running")
            else:
                ctx.check(exc is None, "shutdown fails: %r" % (exc,))
                ctx.check(r == (refs == 1), "the result of shutdown does not tell whether the scheduler was stopped")
                refs -= 1
                if refs == 0:
                    state = "stopped"
                    want = [SCHEDULER_SHUTDOWN]
                    ctx.reach("stopped")
                else:
                    ctx.reach("counted")
            stop = want == [SCHEDULER_SHUTDOWN]
            ctx.check(sorted(log.kinds("estop")) == ([("estop", "default", wait), ("estop", "second", wait)] if stop else []), "not every executor is shut down exactly once as asked")
            ctx.check(len(log.kinds("sstop")) == (1 if stop else 0), "not every store is shut down exactly once")
            if stop and kind != "base":
                ctx.check(not s.hloop.active(), "a stopped scheduler still has a timer")
        elif op in ("pause", "resume"):
            r, exc = call(s, op)
            if state == "stopped":
                ctx.check(isinstance(exc, SchedulerNotRunningError), "%s of a stopped scheduler is not reported" % op)
            else:
                ctx.check(exc is None, op + " fails")
                target = "paused" if op == "pause" else "running"
                if state != target:
                    want = [SCHEDULER_PAUSED if op == "pause" else SCHEDULER_RESUMED]
                    ctx.check((len(log.kinds("wakeup")) >= 1) == (op == "resume"), "resuming does not wake the scheduler")
                state = target
        else:
            tid = "t%d" % n
            n += 1
            d = ctx.dt("when", LO, HI + DAY, UTC)
            ctx.assume(d > now)
            t, exc = call(s, "add_task", W.noop, make_trigger([d]), id=tid)
            ctx.check(exc is None, "adding a task fails")
            (pending if state == "stopped" else stored).append(tid)
        ctx.check([c for c in codes(log) if c in (SCHEDULER_START, SCHEDULER_SHUTDOWN, SCHEDULER_PAUSED, SCHEDULER_RESUMED)] == want, "the life cycle events are not exactly those of what happened")
        ctx.check(s.state == dict(stopped=SchedulerState.STATE_STOPPED, running=SchedulerState.STATE_RUNNING, paused=SchedulerState.STATE_PAUSED)[state], "the scheduler is in the wrong state")
        ctx.check(s.running == (refs > 0), "the scheduler does not run exactly while starts outnumber shutdowns")
        ctx.check([e[0].id for e in s.pending_tasks] == pending, "pending tasks are lost or added twice")
        # a stopped scheduler's stores are not asked
        ctx.check(sorted(t.id for t in list(s.stores["default"].get_all_tasks())) == sorted(stored), "the stored tasks are not those added")
        ctx.check(log.kinds("run") == [], "a task runs before its time")
    ctx.reach("end")


def pending(ctx, kind, n, delayed):
    """Tasks added before the start are scheduled exactly once, at their time, not before the start-up delay."""
    log = W.Log()
    t0 = ctx.dt("added", LO, HI, UTC)
    now = ctx.dt("now", LO, HI, UTC)
    ctx.assume(now >= t0)
    ctx.fixed_clock(t0)
    s = build(ctx, kind, log, stores=("default", "two"))
    delay = None
    if delayed:
        s.lock_path = "lock"
        delay = ctx.int("delay", 0, 100)
        s.startup_delay = delay
    exp = []
    for i in range(n):
        a = ctx.dt("first%d" % i, LO, HI + DAY, UTC)
        b = ctx.dt("second%d" % i, LO, HI + DAY, UTC)
        ctx.assume(b > a)
        mode = ctx.choice("mode", ["trigger", "given", "paused", "finished"])
        trig = make_trigger([a, b] if mode != "finished" else [])
        store = ctx.choice("store", ["default", "two"])
        kw = {}
        if mode == "given":
            g = ctx.dt("given%d" % i, LO, HI + DAY, UTC)
            kw["next_run_time"] = g
        elif mode == "paused":
            kw["next_run_time"] = None
        _, exc = call(s, "add_task", W.noop, trig, id="t%d" % i, store=store, mistrigger_grace_time=None, **kw)
        ctx.check(exc is None, "adding a pending task fails")
        exp.append((mode, a, b, kw.get("next_run_time"), store))
    ctx.check(log.kinds("sadd") == [], "a pending task reaches its store before the start")
    ctx.check(len(s.get_tasks()) == n, "pending tasks are not listed")
    ctx.fixed_clock(now)
    r, exc = call(s, "start", True)
    ctx.check(exc is None and r is True, "start fails")
    ctx.check(sorted(log.kinds("sadd")) == sorted(("sadd", e[4], "t%d" % i) for i, e in enumerate(exp)), "pending tasks are not added exactly once to their store")
    ctx.check(not s.pending_tasks, "tasks stay pending after the start")
    low = None if delay is None else ctx.mkdt(ctx.us(now) + delay * SEC)
    for i, (mode, a, b, g, store) in enumerate(exp):
        t = s.get_task("t%d" % i, store)
        ctx.check(t is not None and t.pending is False, "a pending task is lost at start")
        if mode == "paused" or mode == "finished":
            ctx.check(t.next_run_time is None, "a paused or finished task gets a run time at start")
            continue
        if mode == "given":
            want = g
        else:
            want = a if a >= now else b if b >= now else None
        ctx.reach(mode)
        if want is None:
            ctx.check(t.next_run_time is None, "a finished task gets a run time at start")
        elif low is not None and want < low:
            ctx.reach("delayed")
            ctx.check(W.same(ctx, t.next_run_time, low), "the start-up delay is not applied")
        else:
            ctx.check(W.same(ctx, t.next_run_time, want), "a pending task is not scheduled at its time")


def shutdown_tasks(ctx, kind, kinds):
    """Each shutdown task runs exactly once, when the scheduler stops for good, and is gone afterwards."""
    from asyncz.triggers import DateTrigger
    import datetime

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = build(ctx, kind, log, stores=("default", "two"))
    before = ctx.flag("added before start")
    if not before:
        call(s, "start", ctx.flag("paused"))
    ids = []
    for i, k in enumerate(kinds):
        def make(i=i, k=k):
            def sync(x):
                log.append(("ran", i, x))
                if k == "fails":
                    raise ValueError("shutdown task")
                if k == "exits":
                    raise SystemExit
                if k == "stops":
                    raise StopIteration

            async def coro(x):
                log.append(("ran", i, x))
                if k == "coro fails":
                    raise ValueError("shutdown task")

            return coro if k.startswith("coro") else sync

        if k == "other":
            call(s, "add_task", W.noop, DateTrigger(run_at=datetime.datetime(2031, 1, 1, tzinfo=UTC)), id="t%d" % i, store="default")
            continue
        _, exc = call(s, "add_task", make(), "shutdown", args=(i,), id="t%d" % i, store=ctx.choice("store", ["default", "two"]))
        ctx.check(exc is None, "adding a shutdown task fails")
        ids.append(i)
    if before:
        call(s, "start", ctx.flag("paused"))
    nested = ctx.flag("nested")
    if nested:
        call(s, "start")
        call(s, "shutdown")
    ctx.check(log.kinds("ran") == [], "a shutdown task runs before the shutdown")
    r, exc = call(s, "shutdown")
    ctx.check(exc is None, "shutdown fails because of a shutdown task")
    ctx.check(sorted(log.kinds("ran")) == [("ran", i, i) for i in ids], "not every shutdown task runs exactly once")
    left = sorted(t.id for st in s.stores.values() for t in st.get_all_tasks())
    ctx.check(left == ["t%d" % i for i, k in enumerate(kinds) if k == "other"], "shutdown tasks stay stored, or other tasks are removed")
    ctx.check(len(log.kinds("estop")) == 1 and sorted(log.kinds("sstop")) == [("sstop", "default"), ("sstop", "two")], "not everything is shut down")
    call(s, "start")
    call(s, "shutdown")
    ctx.check(len(log.kinds("ran")) == len(ids), "a shutdown task runs at a second shutdown")
    ctx.reach("ran" if ids else "none")


def failing_start(ctx, kind):
    """A start that fails leaves the scheduler stopped and can be repeated; no task is lost or added twice."""
    from asyncz.enums import SchedulerState

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    where = ctx.choice("where", ["start executor default", "start executor second", "start store default", "start store two", "add"])
    at = ctx.split(ctx.int("at", 1, 2)) if where == "add" else 1
    armed = [at]

    def fail(what):
        if what == where and armed[0] > 0:
            armed[0] -= 1
            return armed[0] == 0
        return False

    s = build(ctx, kind, log, executors=("default", "second"), stores=("default", "two"), fail=fail)
    d = ctx.dt("when", LO, HI + DAY, UTC)
    ctx.assume(d > now)
    for i in range(2):
        call(s, "add_task", W.noop, make_trigger([d]), id="t%d" % i)
    r, exc = call(s, "start")
    ctx.check(exc is not None, "a failing start goes unnoticed")
    ctx.check(s.state == SchedulerState.STATE_STOPPED, "a failed start leaves the scheduler running")
    r, exc = call(s, "start")
    ctx.check(exc is None and r is True, "the scheduler cannot be started after a failed start")
    ctx.check(s.running, "the scheduler does not run")
    ctx.check(sorted(t.id for t in s.get_tasks()) == ["t0", "t1"], "a task is lost or duplicated by a failed start")
    for t in s.get_tasks():
        ctx.check(W.same(ctx, t.next_run_time, d), "a task is scheduled wrongly after a failed start")
    r, exc = call(s, "shutdown")
    ctx.check(exc is None and not s.running, "one shutdown does not stop the scheduler after a failed start")
    ctx.reach("recovered")


def never_started(ctx, kind):
    """Shutting down (also repeatedly) a scheduler that does not run is reported and harmless."""
    from asyncz.exceptions import SchedulerNotRunningError

    log = W.Log()
    ctx.fixed_clock(ctx.mkdt(T0))
    s = build(ctx, kind, log)
    if kind == "asyncio":
        s.event_loop = None
    for _ in range(ctx.split(ctx.int("times", 1, 3))):
        exc = None
        try:
            drive(s.shutdown())
        except Exception as e:
            exc = e
        ctx.check(isinstance(exc, SchedulerNotRunningError), "shutting down a scheduler that was never started is not reported: %r" % (exc,))
    s.event_loop = s.hloop
    n = ctx.split(ctx.int("starts", 1, 3))
    for i in range(n):
        r, exc = call(s, "start")
        ctx.check(exc is None and r == (i == 0), "a scheduler cannot be started after needless shutdowns")
    for i in range(n):
        ctx.check(s.running, "the scheduler stops too early")
        call(s, "shutdown")
    ctx.check(not s.running, "the scheduler does not stop")
    ctx.reach("ok")


def instances(tier):
    q = tier == "quick"
    out = []
    opts = dict(seconds=700 if q else 5000, extra=PATCH, extra_concrete=PATCH)
    top = 4 if q else 6
    for kind in ("base", "asyncio", "native"):
        for op in OPS:
            for op2 in OPS:
                out.append(dict(name="%s %s, %s, then %d" % (kind, op, op2, top - 2), fn=lifecycle, reach=["end"], weight=5,
                                params=dict(kind=kind, steps=top, first=[op, op2]), opts=opts))
        out.append(dict(name="%s start, start, then 3" % kind, fn=lifecycle, reach=["end", "stopped", "counted"], weight=5,
                        params=dict(kind=kind, steps=5, first=["start", "start"]), opts=opts))
        out.append(dict(name="%s shutdown, start, start, then 2" % kind, fn=lifecycle, reach=["end", "not running"], weight=5,
                        params=dict(kind=kind, steps=5, first=["shutdown", "start", "start"]), opts=opts))
        for n in (1, 2) if q else (1, 2, 3):
            for delayed in (False, True):
                out.append(dict(name="%s pending %d%s" % (kind, n, " delayed" if delayed else ""), fn=pending, reach=["trigger", "given"] + (["delayed"] if delayed else []), weight=n * 3,
                                params=dict(kind=kind, n=n, delayed=delayed), opts=dict(opts, extra=PATCH + [("asyncz.stores.base", "FileLockProtected", NoLock)],
                                                                                       extra_concrete=PATCH + [("asyncz.stores.base", "FileLockProtected", NoLock)])))
        for kinds in [["ok"], ["fails"], ["exits"], ["stops"], ["coro"], ["coro fails"], ["ok", "other"], ["fails", "ok"], ["coro", "ok"], ["coro fails", "coro"], ["other"], ["exits", "coro", "ok"]]:
            out.append(dict(name="%s shutdown tasks %s" % (kind, "/".join(kinds)), fn=shutdown_tasks, reach=["ran" if kinds != ["other"] else "none"],
                            params=dict(kind=kind, kinds=kinds), opts=opts))
        out.append(dict(name="%s never started" % kind, fn=never_started, reach=["ok"], params=dict(kind=kind), opts=opts))
        out.append(dict(name="%s failing start" % kind, fn=failing_start, reach=["recovered"], params=dict(kind=kind), opts=opts))
    return out


class NoLock:
    def __init__(self, path):
        pass

    def shutdown(self):
        pass

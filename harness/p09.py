"""P09 outcome of every submitted run."""
from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "up to three (quick) / four (thorough) run times per submission, any start delay and grace time (integer seconds or milliseconds), every combination of outcomes"
OUTSIDE = "task functions that raise BaseException (SystemExit, cancellation)"
ASSUMPTIONS = ["the clock never goes backwards"]
LO, HI = T0, T0 + 4 * DAY


class Logger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Pause:
    def __await__(self):
        yield self


def make(ctx, n, is_coro, grace_kind, nows):
    from asyncz.tasks import Task

    calls = []
    outs = [ctx.choice("outcome", ["value", "error", "key error"]) for _ in range(n)]
    vals = [ctx.int("value", 0, 9) for _ in range(n)]
    excs = {}
    a1 = ctx.int("arg", 0, 5)

    def body(*args, **kwargs):
        k = len(calls)
        calls.append((args, kwargs))
        tick(ctx, nows)
        if k >= n:
            raise AssertionError("too many calls")
        if outs[k] == "value":
            return vals[k]
        excs[k] = ValueError("no %d" % k) if outs[k] == "error" else KeyError(k)
        raise excs[k]

    if is_coro:
        async def fn(*args, **kwargs):
            await Pause()
            return body(*args, **kwargs)
    else:
        def fn(*args, **kwargs):
            return body(*args, **kwargs)

    if grace_kind is None:
        grace, gus = None, None
    elif grace_kind == "int":
        grace = ctx.int("grace", 1, 100)
        gus = grace * SEC
    else:
        grace = ctx.real("grace", "0.001", 100, 1000)
        gus = grace * SEC if ctx.symbolic else round(grace * SEC)
    task = Task(fn=fn, id="t", args=(a1, "x"), kwargs=dict(k=a1), mistrigger_grace_time=grace)
    return task, calls, outs, vals, excs, a1, gus


def check_run(ctx, events, run_times, nows, calls, outs, vals, excs, a1, gus):
    from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED

    ctx.check(len(events) == len(run_times), "not exactly one event per submitted run")
    k = 0
    for i, (e, rt) in enumerate(zip(events, run_times)):
        ctx.check(W.same(ctx, e.scheduled_run_time, rt), "events out of order")
        ctx.check(And(e.task_id == "t", e.store == "default"), "event for another task")
        if gus is None:
            missed = False
        else:
            late = ctx.us(nows[k]) - ctx.us(rt)
            missed = bool(late - gus > 0)
        if missed:
            ctx.reach("missed")
            ctx.check(e.code == TASK_MISSED, "a run later than the grace time is not reported as missed")
            ctx.check(e.return_value is None and e.exception is None, "missed event with an outcome")
            continue
        ctx.check(e.code != TASK_MISSED, "a run within the grace time is reported as missed")
        ctx.check(k < len(calls), "no call for a run that was not missed")
        args, kwargs = calls[k]
        ctx.check(And(len(args) == 2 and args[1] == "x" and list(kwargs) == ["k"], Eq(args[0], a1), Eq(kwargs["k"], a1)), "called with other arguments")
        if outs[k] == "value":
            ctx.reach("executed")
            ctx.check(e.code == TASK_EXECUTED, "a successful run is not reported as executed")
            ctx.check(e.exception is None and Eq(e.return_value, vals[k]), "wrong return value reported")
        else:
            ctx.reach("error")
            ctx.check(e.code == TASK_ERROR, "a failing run is not reported as error")
            ctx.check(e.exception is excs[k] and bool(e.traceback) and e.return_value is None, "wrong exception reported")
        k += 1
    ctx.check(k == len(calls), "more calls than runs")


def tick(ctx, nows):
    """Time passes while a task function runs."""
    v = ctx.dt("clock", LO, HI, UTC)
    if nows:
        ctx.assume(v >= nows[-1])
    nows.append(v)


def clock(ctx, nows):
    if not nows:
        tick(ctx, nows)
    ctx.clock_fn = lambda tz: nows[-1]


def run(ctx, n, is_coro, grace_kind):
    from asyncz.executors.base import run_coroutine_task, run_task

    nows = []
    clock(ctx, nows)
    task, calls, outs, vals, excs, a1, gus = make(ctx, n, is_coro, grace_kind, nows)
    run_times = schedule(ctx, "run", n, LO, HI)
    if is_coro:
        co = run_coroutine_task(task, "default", list(run_times), Logger())
        events = None
        for _ in range(3 * n + 3):
            try:
                co.send(None)
            except StopIteration as stop:
                events = stop.value
                break
        ctx.check(events is not None, "the run never finishes")
    else:
        events = run_task(task, "default", list(run_times), Logger())
    ctx.observe("codes", [e.code for e in events])
    check_run(ctx, events, run_times, nows, calls, outs, vals, excs, a1, gus)


def executor(ctx, kind, n, is_coro):
    """Submission through a real executor class: each event is dispatched once, in order."""
    from asyncz.events.base import TaskExecutionEvent

    log = W.Log()
    s = W.scheduler(log)
    loop = W.Loop()
    s.event_loop = loop
    if kind == "asyncio":
        from asyncz.executors.asyncio import AsyncIOExecutor

        e = AsyncIOExecutor()
    elif kind == "debug":
        from asyncz.executors.debug import DebugExecutor

        e = DebugExecutor()
    else:
        from asyncz.executors.pool import BasePoolExecutor
        from harness.p08 import PoolFuture

        class Pool:
            def submit(self, fn, *args):
                f = PoolFuture()
                loop.tasks.append(("call", f, (fn, args)))
                return f

        class E(BasePoolExecutor):
            def __init__(self):
                super().__init__(Pool())

        e = E()
    s.add_executor(e, "default")
    W.listen(s)
    nows = []
    clock(ctx, nows)
    task, calls, outs, vals, excs, a1, gus = make(ctx, n, is_coro, "int", nows)
    run_times = schedule(ctx, "run", n, LO, HI)
    s.add_task(task, make_trigger(run_times, relative=True))
    s.start()
    del log[:]
    with loop.inside():
        e.send_task(s.get_task("t"), list(run_times))
    if kind != "debug":
        ctx.check(len(loop.tasks) == 1 and not calls, "a submission is not handed over exactly once")
        k, f, job = loop.tasks[0]
        if k == "coro":
            for _ in range(3 * n + 3):
                try:
                    job.send(None)
                except StopIteration as stop:
                    f.set_result(stop.value)
                    break
        else:
            f.set_result(job[0](*job[1]))
        loop.run()
    events = [x for _, x in log.kinds("event") if isinstance(x, TaskExecutionEvent)]
    check_run(ctx, events, run_times, nows, calls, outs, vals, excs, a1, gus)
    ctx.reach("end")


def instances(tier):
    out = []
    for c in (False, True):
        for g in (None, "int", "real"):
            for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                out.append(dict(name="%s grace=%s %d runs" % ("coroutine" if c else "plain", g, n), fn=run, params=dict(n=n, is_coro=c, grace_kind=g),
                                reach=["executed", "error"] + (["missed"] if g else []), weight=n, opts=dict(seconds=600)))
    for kind, c in (("asyncio", False), ("asyncio", True), ("pool", False), ("debug", False)):
        out.append(dict(name="executor %s%s" % (kind, " coroutine" if c else ""), fn=executor, params=dict(kind=kind, n=2, is_coro=c),
                        reach=["end", "missed", "executed", "error"], weight=3, opts=dict(seconds=600)))
    return out

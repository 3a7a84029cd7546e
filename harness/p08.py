"""P08 instance limits."""
import asyncio

from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "two tasks with any limits from 1 to 3, histories of up to four (quick) / five (thorough) submit and finish steps, for each executor class"
OUTSIDE = "longer histories; true thread interleavings inside one send_task (guarded by the executor's lock)"
ASSUMPTIONS = ["the pool / event loop calls each future's callbacks once, when it is done"]


class Pool:
    """concurrent.futures-like pool whose futures the harness finishes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.futures = []
        self.broken = None

    def submit(self, fn, *args):
        if self.broken is not None:
            raise self.broken
        f = PoolFuture()
        self.futures.append(f)
        return f

    def shutdown(self, *a, **k):
        pass


class PoolFuture(W.Future):
    def _cancelled_error(self):
        import concurrent.futures

        return concurrent.futures.CancelledError()


def make(ctx, kind, log):
    s = W.scheduler(log)
    loop = W.Loop()
    s.event_loop = loop
    flights = []  # (task id, finisher)
    if kind == "pool":
        from asyncz.executors.pool import BasePoolExecutor

        class E(BasePoolExecutor):
            def __init__(self):
                super().__init__(Pool(ctx))

        e = E()

        def pending():
            return [f for f in e.pool.futures if not f.done()]
    elif kind == "asyncio":
        from asyncz.executors.asyncio import AsyncIOExecutor

        e = AsyncIOExecutor()

        def pending():
            return [f for _, f, _ in loop.tasks if not f.done()]
    s.add_executor(e, "default")
    return s, e, loop, pending


async def coro(*args, **kwargs):
    return None


def close(loop):
    for kind, f, c in loop.tasks:
        if kind == "coro":
            c.close()


def history(ctx, kind, steps, is_coro=False, first=None, other_thread=False):
    from asyncz.exceptions import MaximumInstancesError

    log = W.Log()
    s, e, loop, pending = make(ctx, kind, log)

    def send(task):
        """From the event loop, or from another thread while the loop is running."""
        if other_thread:
            e.send_task(task, [now])
            ctx.check(not loop.unsafe, "a run started from another thread uses the event loop unsafely, nothing wakes it up")
            loop.run()
        else:
            with loop.inside():
                e.send_task(task, [now])

    now = ctx.dt("now", T0, T0 + DAY, UTC)
    ctx.fixed_clock(now)
    lim = dict(a=ctx.int("max a", 1, 3), b=ctx.int("max b", 1, 3))
    fn = coro if is_coro else W.noop
    tasks = {}
    for t in ("a", "b"):
        tasks[t] = s.add_task(fn, "interval", seconds=3600, id=t, max_instances=lim[t])
    s.start()
    flight = dict(a=[], b=[])
    try:
        for k in range(steps):
            op = first[k] if first and k < len(first) else ctx.choice("op", ["submit a", "submit b", "ok", "error", "cancel", "refuse a"])
            if op.startswith("submit"):
                t = op[-1]
                before = pending()
                try:
                    send(s.get_task(t))
                except MaximumInstancesError:
                    ctx.reach("rejected")
                    ctx.check(len(flight[t]) >= lim[t], "a submission below the limit was rejected")
                    ctx.check(len(pending()) == len(before), "a rejected submission was started")
                else:
                    ctx.reach("accepted")
                    ctx.check(len(flight[t]) < lim[t], "more than max_instances executions in flight")
                    new = [f for f in pending() if f not in before]
                    ctx.check(len(new) == 1, "an accepted submission was not started exactly once")
                    flight[t].append(new[0])
            elif op == "refuse a":
                # the executor fails to start the run
                if len(flight["a"]) >= lim["a"]:
                    return
                if kind == "pool":
                    e.pool.broken = RuntimeError("cannot schedule new futures after shutdown")
                else:
                    orig = loop.create_task, loop.run_in_executor

                    def boom(*args):
                        for x in args:
                            if hasattr(x, "close"):
                                x.close()
                        raise RuntimeError("event loop is closed")

                    loop.create_task = loop.run_in_executor = boom
                raised = False
                try:
                    send(s.get_task("a"))
                except RuntimeError:
                    raised = True
                if not other_thread:
                    ctx.check(raised, "a failed start is not reported")
                if kind == "pool":
                    e.pool.broken = None
                else:
                    loop.create_task, loop.run_in_executor = orig
            else:
                fl = [(t, f) for t in ("a", "b") for f in flight[t]]
                if not fl:
                    return
                t, f = fl[0] if len(fl) == 1 else fl[ctx.split(ctx.int("which", 0, len(fl) - 1), 8)]
                flight[t].remove(f)
                if op == "ok":
                    f.set_result([])
                elif op == "error":
                    f.set_exception(RuntimeError("lost"))
                else:
                    f.cancel()
                loop.run()
                ctx.reach(op)
        # every finished execution freed exactly one slot, every running one holds one
        for t in ("a", "b"):
            n = 0
            while n <= 4:
                try:
                    send(s.get_task(t))
                except MaximumInstancesError:
                    break
                n += 1
            ctx.check(Eq(n + len(flight[t]), lim[t]), "slots leaked or freed twice: the number of runs that can be started is not the limit minus the runs in flight")
        ctx.reach("end")
    finally:
        close(loop)


def debug(ctx, steps):
    """The debug executor runs inline: any number of runs in sequence, each frees its slot."""
    from asyncz.exceptions import MaximumInstancesError
    from asyncz.executors.debug import DebugExecutor

    log = W.Log()
    s = W.scheduler(log)
    e = DebugExecutor()
    s.add_executor(e, "default")
    now = ctx.dt("now", T0, T0 + DAY, UTC)
    ctx.fixed_clock(now)
    lim = ctx.int("max", 1, 3)
    outs = []

    def fn():
        log.append(("run",))
        if outs[-1]:
            raise ValueError("task")

    s.add_task(fn, "interval", seconds=3600, id="a", max_instances=lim, mistrigger_grace_time=None)
    s.start()
    for k in range(steps):
        outs.append(ctx.flag("fails"))
        e.send_task(s.get_task("a"), [now])
        ctx.check(len(log.kinds("run")) == k + 1, "a submission was not run exactly once")
    ctx.reach("end")


def shutdown(ctx):
    """Shutting the executor down cancels what is pending and leaves the accounting clean."""
    from asyncz.exceptions import MaximumInstancesError

    log = W.Log()
    s, e, loop, pending = make(ctx, "asyncio", log)
    now = ctx.dt("now", T0, T0 + DAY, UTC)
    ctx.fixed_clock(now)
    lim = ctx.int("max", 1, 3)
    s.add_task(W.noop, "interval", seconds=3600, id="a", max_instances=lim)
    s.start()
    task = s.get_task("a")
    n = ctx.split(ctx.int("runs", 1, 3))
    ctx.assume(lim >= n)
    for _ in range(n):
        with loop.inside():
            e.send_task(task, [now])
    done = ctx.flag("one finished")
    if done:
        pending()[0].set_result([])
        loop.run()
    fs = pending()
    raised = None
    try:
        with loop.inside():
            e.shutdown()
    except RuntimeError as exc:
        raised = exc
    loop.run()
    ctx.check(raised is None, "shutdown of the executor fails")
    ctx.check(all(f.cancelled() for f in fs), "a pending run survives the shutdown of the executor")
    k = 0
    while k <= 4:
        try:
            with loop.inside():
                e.send_task(task, [now])
        except MaximumInstancesError:
            break
        k += 1
    ctx.check(Eq(k, lim), "cancelled runs keep their slots")
    ctx.reach("end")


def broken_pool(ctx):
    """A broken process pool is replaced and the run is started in the new one."""
    import concurrent.futures
    from concurrent.futures.process import BrokenProcessPool

    from asyncz.exceptions import MaximumInstancesError
    from asyncz.executors.pool import BasePoolExecutor

    log = W.Log()
    s = W.scheduler(log)
    pools = []

    class BPool(concurrent.futures.ThreadPoolExecutor):
        def __init__(self, max_workers=None):
            super().__init__(max_workers)
            self.submitted = []
            pools.append(self)

        def submit(self, fn, *args):
            if self is pools[0] and broken:
                raise BrokenProcessPool("a child died")
            f = PoolFuture()
            self.submitted.append(f)
            return f

    class E(BasePoolExecutor):
        def __init__(self):
            super().__init__(BPool(3))

    e = E()
    s.add_executor(e, "default")
    now = ctx.dt("now", T0, T0 + DAY, UTC)
    ctx.fixed_clock(now)
    lim = ctx.int("max", 1, 3)
    s.add_task(W.noop, "interval", seconds=3600, id="a", max_instances=lim)
    s.start()
    broken = ctx.flag("broken")
    e.send_task(s.get_task("a"), [now])
    fs = [f for p in pools for f in p.submitted]
    ctx.check(len(fs) == 1, "the run was not started exactly once after the pool broke")
    fs[0].set_result([])
    k = 0
    while k <= 4:
        try:
            e.send_task(s.get_task("a"), [now])
        except MaximumInstancesError:
            break
        k += 1
    ctx.check(Eq(k, lim), "the replaced pool leaks slots")
    ctx.reach("broken" if broken else "ok")


def instances(tier):
    out = []
    ops = ["submit a", "submit b", "ok", "error", "cancel", "refuse a"]
    for kind, c, other in (("pool", False, False), ("asyncio", False, False), ("asyncio", True, False), ("asyncio", False, True), ("asyncio", True, True)):
        nm = kind + (" coroutine" if c else "") + (" from another thread" if other else "")
        for k in (2, 3):
            out.append(dict(name="%s %d steps" % (nm, k), fn=history, params=dict(kind=kind, steps=k, is_coro=c, other_thread=other),
                            reach=["accepted", "end", "ok", "error", "cancel"] + (["rejected"] if k >= 2 else []), weight=k,
                            opts=dict(seconds=600)))
        for second in ops:
            out.append(dict(name="%s submit a, %s, ..." % (nm, second), fn=history,
                            params=dict(kind=kind, steps=(3 if other else 4) if tier == "quick" else 6, is_coro=c, other_thread=other, first=["submit a", second]), reach=[], weight=6, opts=dict(seconds=600 if tier == "quick" else 6000)))
    out.append(dict(name="debug", fn=debug, params=dict(steps=4), reach=["end"]))
    out.append(dict(name="broken pool", fn=broken_pool, reach=["broken", "ok"]))
    out.append(dict(name="executor shutdown", fn=shutdown, reach=["end"]))
    return out

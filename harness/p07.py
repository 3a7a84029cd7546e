"""P07 waiting for the next run and timers."""
import contextlib

from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Ite, Not, Or

BOUNDS = "up to three stores with any answer, fault or lock state; timer histories of four (quick) / five (thorough) steps"
OUTSIDE = "waits beyond threading.TIMEOUT_MAX; real event loop timing"
ASSUMPTIONS = ["call_later(d, f) calls f once after d seconds unless cancelled"]
LO, HI = T0, T0 + 4 * DAY


class StubLock:
    def __init__(self, free):
        self.free = free
        self.held = 0

    @contextlib.contextmanager
    def protected(self, blocking=False, timeout=None):
        self.held += 1
        try:
            yield self.free
        finally:
            self.held -= 1

    def shutdown(self):
        pass


def stub_store(ctx, name, now):
    from asyncz.stores.memory import MemoryStore

    kind = ctx.choice(name, ["empty", "next", "fault", "locked"])
    nrt = ctx.dt(name + ".next", LO, HI, UTC) if kind == "next" else None
    calls = []

    class HStore(MemoryStore):
        def create_lock(self):
            return StubLock(kind != "locked")

        def get_due_tasks(self, now):
            calls.append("due")
            if kind == "fault":
                raise RuntimeError("backend down")
            return []

        def get_next_run_time(self):
            calls.append("next")
            return nrt

    return HStore(), kind, nrt, calls


def close(a, b):
    """a seconds == b microseconds, up to float rounding"""
    d = a * SEC - b
    return And(d < 0.9, d > -0.9)


def wait(ctx, n, lock_path, busy):
    now = ctx.dt("now", LO, HI, UTC)
    retry = ctx.int("retry", 1, 3600)
    ctx.fixed_clock(now)
    s = W.scheduler(lock_path="/nonexistent/{store}" if lock_path else None, store_retry_interval=retry)
    s.add_executor(W.executor(W.Log(), "default"), "default")
    kinds = []
    names = ["default", "two", "three"][:n]
    for a in names:
        st, kind, nrt, calls = stub_store(ctx, a, now)
        kinds.append((kind, nrt, calls))
        s.add_store(st, a)
    s.start()
    for _, _, c in kinds:
        del c[:]
    if busy:
        s.store_processing_lock = StubLock(False)
    w = s.process_tasks()
    ctx.observe("wait", w)
    if busy:
        ctx.reach("busy")
        ctx.check(all(not c for _, _, c in kinds), "processing while another thread is processing")
        ctx.check(w is not None, "never retried although another thread is processing")
        ctx.check(And(w >= 0, w * SEC <= retry * SEC + 1), "retried later than the retry interval")
        return
    cands = []
    retrying = False
    for kind, nrt, calls in kinds:
        if kind == "next":
            cands.append(ctx.us(nrt) - ctx.us(now))
        if kind in ("fault", "locked"):
            retrying = True
        if kind == "locked":
            ctx.check(not calls, "a locked store was processed")
    if not cands and not retrying:
        if lock_path:
            ctx.reach("recheck")
            ctx.check(w is not None and close(w, retry * SEC), "other processes' tasks are never looked for")
        else:
            ctx.reach("idle")
            ctx.check(w is None, "nothing scheduled but a wakeup is planned")
        return
    ctx.check(w is not None, "sleeps for ever although something is scheduled")
    ctx.check(w >= 0, "negative wait")
    for c in cands:
        ctx.check(Or(c < 0, w * SEC <= c + 0.9), "waits beyond the next run time of a store")
        ctx.check(Or(c >= 0, w * SEC <= 0.9), "an overdue task does not cause an immediate wakeup")
    if retrying:
        ctx.reach("retry")
        ctx.check(w * SEC <= retry * SEC + 0.9, "waits longer than the retry interval after a fault")
    else:
        ctx.reach("exact")
        ctx.check(Or(*[Or(close(w, c), And(c <= 0, w * SEC <= 0.9)) for c in cands]), "wakes up although no store has a run time then")


def paused(ctx):
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    log = W.Log()
    s = W.scheduler(log)
    s.add_executor(W.executor(log, "default"), "default")
    t = schedule(ctx, "t", 2, LO, HI)
    s.add_task(W.noop, make_trigger(t, relative=True), id="t", next_run_time=t[0], mistrigger_grace_time=None)
    if ctx.flag("start paused"):
        s.start(paused=True)
    else:
        s.start()
        s.pause()
    r = s.process_tasks()
    ctx.check(r is None and not log.kinds("send"), "a paused scheduler processes tasks")
    ctx.check(W.same(ctx, s.get_task("t").next_run_time, t[0]), "a paused scheduler changes tasks")
    del log[:]
    s.resume()
    ctx.check(("wakeup",) in log, "resuming does not wake the scheduler")
    s.process_tasks()
    ctx.check((len(log.kinds("send")) == 1) == bool(t[0] <= now), "after resuming a due task is not run")
    ctx.reach("ok")


OPS = ["fire", "wakeup", "pause", "resume", "add", "pause task", "delete task"]


def timers(ctx, steps, first=None):
    """AsyncIOScheduler on a stub loop: exactly one timer, never too late."""
    from asyncz.schedulers.asyncio import AsyncIOScheduler

    class H(AsyncIOScheduler):
        def create_default_executor(self):
            return W.executor(log, "default")

    log = W.Log()
    loop = W.Loop()
    clock = dict(now=ctx.dt("now", LO, HI, UTC))
    ctx.clock_fn = lambda tz: clock["now"]
    s = H(event_loop=loop, timezone=UTC, identity="s")
    a = schedule(ctx, "a", 2, LO, HI)
    s.add_task(W.noop, make_trigger(a, relative=True), id="a", next_run_time=a[0], mistrigger_grace_time=None)
    b = schedule(ctx, "b", 1, LO, HI)
    s.start()
    armed = clock["now"]
    loop.run()
    known = []
    added = False

    def settle():
        loop.run()
        act = loop.active()
        ctx.check(len(act) <= 1, "more than one timer armed")
        ts = [t.next_run_time for t in s.get_tasks() if t.next_run_time is not None]
        from asyncz.enums import SchedulerState

        if s.state == SchedulerState.STATE_RUNNING and ts:
            ctx.reach("armed")
            ctx.check(len(act) == 1, "no timer although a task is scheduled")
            t = act[0]
            if getattr(t, "at", None) is None:
                t.at = clock["now"]
            ctx.check(t.delay >= 0, "negative timer")
            due = ctx.us(t.at) + t.delay * SEC
            for x in ts:
                ctx.check(Or(due <= ctx.us(x) + 0.9, due <= ctx.us(t.at) + 0.9), "the timer fires after the next run time")
        if s.state == SchedulerState.STATE_RUNNING and not ts:
            ctx.reach("unarmed")

    settle()
    for k in range(steps):
        op = first[k] if first and k < len(first) else ctx.choice("op", OPS)
        if op == "fire":
            act = loop.active()
            if not act:
                return
            t = act[0]
            nxt = ctx.dt("now", LO, HI, UTC)
            at = getattr(t, "at", clock["now"]) or clock["now"]
            # a timer fires at its due time or later
            ctx.assume(And(nxt >= clock["now"], (ctx.us(nxt) - ctx.us(at)) + 1 > t.delay * SEC))
            clock["now"] = nxt
            t.fire()
        elif op == "wakeup":
            s.wakeup()
        elif op == "pause":
            s.pause()
        elif op == "resume":
            s.resume()
        elif op == "add":
            if added:
                return
            added = True
            s.add_task(W.noop, make_trigger(b, relative=True), id="b", next_run_time=b[0], mistrigger_grace_time=None)
        elif op == "pause task":
            if s.get_task("a") is None:
                return
            s.pause_task("a")
        elif op == "delete task":
            if s.get_task("a") is None:
                return
            s.delete_task("a")
        settle()
    # what is due when the timer fires has been submitted
    ctx.reach("end")


def broken_round(ctx):
    """A store that fails in the middle of a round must not stop the scheduler for good."""
    from asyncz.schedulers.asyncio import AsyncIOScheduler
    from asyncz.stores.memory import MemoryStore

    class Broken(MemoryStore):
        def get_next_run_time(self):
            if where == "next":
                raise RuntimeError("backend down")
            return super().get_next_run_time()

        def update_task(self, task):
            if where == "update":
                raise RuntimeError("backend down")
            return super().update_task(task)

        def delete_task(self, task_id):
            if where == "delete":
                raise RuntimeError("backend down")
            return super().delete_task(task_id)

    class H(AsyncIOScheduler):
        def create_default_executor(self):
            return W.executor(log, "default")

    where = None
    log = W.Log()
    loop = W.Loop()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = H(event_loop=loop, timezone=UTC, identity="s")
    s.add_store(Broken(), "default")
    n = ctx.split(ctx.int("times", 1, 2))
    a = schedule(ctx, "a", n, LO, HI)
    fail = ctx.flag("trigger fails")
    calls = []

    def trig_fail(k):
        calls.append(k)
        return RuntimeError("trigger") if fail and armed else None

    armed = False
    s.add_task(W.noop, make_trigger(a, relative=True, fail=trig_fail), id="a", next_run_time=a[0], mistrigger_grace_time=None)
    s.start()
    where = ctx.choice("where", ["next", "update", "delete", None])
    armed = True
    with contextlib.suppress(RuntimeError):
        loop.run()
    act = loop.active()
    if where is not None or fail:
        ctx.reach("fault")
    left = [t for t in s.get_tasks() if t.next_run_time is not None]
    if left:
        ctx.check(len(act) == 1, "after a failing round no timer is armed: the scheduler never wakes again")
        ctx.check(act[0].delay >= 0, "negative timer")


def instances(tier):
    out = []
    for n in (1, 2, 3):
        for lp in (False, True):
            out.append(dict(name="wait %d stores%s" % (n, " lock_path" if lp else ""), fn=wait, params=dict(n=n, lock_path=lp, busy=False),
                            reach=["recheck" if lp else "idle", "retry", "exact"], weight=n))
    out.append(dict(name="busy", fn=wait, params=dict(n=2, lock_path=False, busy=True), reach=["busy"]))
    out.append(dict(name="paused", fn=paused, reach=["ok"]))
    out.append(dict(name="broken round", fn=broken_round, reach=["fault"]))
    for k in (1, 2, 3):
        out.append(dict(name="timers %d steps" % k, fn=timers, params=dict(steps=k), reach=["armed", "end"], weight=k * 4,
                        opts=dict(seconds=700)))
    for op in OPS:
        out.append(dict(name="timers 4 steps, first %s" % op, fn=timers, params=dict(steps=4, first=[op]), reach=[], weight=9, opts=dict(seconds=700)))
    if tier != "quick":
        for op in OPS:
            for op2 in OPS:
                out.append(dict(name="timers 5 steps, first %s, %s" % (op, op2), fn=timers, params=dict(steps=5, first=[op, op2]), reach=[],
                                weight=9, opts=dict(seconds=5000)))
    return out

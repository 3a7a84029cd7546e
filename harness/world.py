"""A scheduler under test with stub environment: stores, executors, loop, listeners."""
import contextlib

from harness.stubs import make_trigger, schedule  # noqa: F401
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or


def noop(*args, **kwargs):
    return None


def noop2(*args, **kwargs):
    return None


class Log(list):
    def kinds(self, *names):
        return [x for x in self if x[0] in names]


def scheduler(log=None, base=None, **options):
    """A BaseScheduler (or subclass) whose wakeup only records."""
    from asyncz.schedulers.base import BaseScheduler

    log = log if log is not None else Log()

    class HScheduler(base or BaseScheduler):
        def wakeup(self):
            log.append(("wakeup",))

    options.setdefault("timezone", UTC)
    options.setdefault("identity", "sched")
    s = HScheduler(**options)
    s.hlog = log
    return s


def listen(s, log=None, mask=None):
    log = log if log is not None else s.hlog
    cb = lambda e: log.append(("event", e))  # noqa: E731
    if mask is None:
        s.add_listener(cb)
    else:
        s.add_listener(cb, mask)
    return cb


def executor(log, name, outcome=None):
    """An executor that records what it is asked to run; outcome(task, run_times) -> None or exception."""
    from asyncz.executors.base import BaseExecutor

    class HExecutor(BaseExecutor):
        def send_task(self, task, run_times):
            log.append(("send", name, task.id, list(run_times)))
            exc = outcome(task, run_times) if outcome else None
            if exc is not None:
                raise exc

        def do_send_task(self, task, run_times):
            raise AssertionError

    return HExecutor()


def same(ctx, a, b):
    """Instants equal (None aware)."""
    if a is None or b is None:
        return a is None and b is None
    return Eq(ctx.us(a), ctx.us(b))


class Loop:
    """An event loop stub: queues callbacks and timers, never blocks."""

    def __init__(self, log=None):
        self.log = log if log is not None else Log()
        self.queue = []
        self.timers = []
        self.tasks = []
        self.unsafe = []  # calls that are not allowed from other threads (and don't wake the loop)
        self.stopped = False

    def call_soon_threadsafe(self, fn, *args):
        self.queue.append((fn, args))

    call_soon = call_soon_threadsafe

    def call_later(self, delay, fn, *args):
        t = Timer(self, delay, fn, args)
        self.timers.append(t)
        return t

    def call_at(self, when, fn, *args):
        return self.call_later(when, fn, *args)

    def active(self):
        return [t for t in self.timers if not t.cancelled_ and not t.fired]

    def run(self, limit=20):
        n = 0
        while self.queue:
            fn, args = self.queue.pop(0)
            with self.inside():
                fn(*args)
            n += 1
            if n > limit:
                raise AssertionError("event loop does not come to rest")

    @contextlib.contextmanager
    def inside(self):
        """The thread of the event loop is running."""
        import asyncio

        before = asyncio._get_running_loop()
        asyncio._set_running_loop(self)
        try:
            yield
        finally:
            asyncio._set_running_loop(before)

    def thread_bound(self, what):
        import asyncio

        if asyncio._get_running_loop() is not self:
            self.unsafe.append(what)

    def create_task(self, coro):
        self.thread_bound("create_task")
        f = Future(self)
        self.tasks.append(("coro", f, coro))
        return f

    def run_in_executor(self, pool, fn, *args):
        self.thread_bound("run_in_executor")
        f = Future(self)
        self.tasks.append(("call", f, (fn, args)))
        return f

    def stop(self):
        self.stopped = True

    def is_running(self):
        return not self.stopped


class Timer:
    def __init__(self, loop, delay, fn, args):
        self.loop, self.delay, self.fn, self.args = loop, delay, fn, args
        self.cancelled_ = False
        self.fired = False

    def cancel(self):
        self.cancelled_ = True

    def fire(self):
        self.fired = True
        self.fn(*self.args)


class Future:
    """asyncio-like future; callbacks run when it is finished."""

    def __init__(self, loop=None):
        self.loop = loop
        self.state = "pending"
        self.value = self.exc = None
        self.callbacks = []

    def add_done_callback(self, cb):
        if self.state == "pending":
            self.callbacks.append(cb)
        else:
            self._call(cb)

    def _call(self, cb):
        if self.loop is not None:  # asyncio: callbacks run in a later iteration of the loop
            self.loop.call_soon_threadsafe(self._call_now, cb)
        else:
            self._call_now(cb)

    def _call_now(self, cb):
        with contextlib.suppress(Exception):
            cb(self)

    def done(self):
        return self.state != "pending"

    def cancelled(self):
        return self.state == "cancelled"

    def _finish(self):
        for cb in self.callbacks:
            self._call(cb)

    def set_result(self, v):
        self.state, self.value = "done", v
        self._finish()

    def set_exception(self, e):
        self.state, self.exc = "failed", e
        self._finish()

    def cancel(self):
        if self.state != "pending":
            return False
        self.state = "cancelled"
        self._finish()
        return True

    def _cancelled_error(self):
        import asyncio

        return asyncio.CancelledError()

    def result(self):
        if self.state == "cancelled":
            raise self._cancelled_error()
        if self.state == "failed":
            raise self.exc
        return self.value

    def exception(self):
        if self.state == "cancelled":
            raise self._cancelled_error()
        return self.exc

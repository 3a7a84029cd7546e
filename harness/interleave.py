"""Deterministic interleaving of real threads; the schedule is made of symbolic variables.

Every simulated thread is a real thread that runs only while it holds the baton.  In the traced source files of
/repo it stops before every call, attribute / item assignment and `with` (opcode granularity); at each such point the
schedule - symbolic integers - decides whether another thread continues.  Locks are modelled, so waiting is a scheduling
decision, and a state in which every thread waits is reported as a deadlock.
"""
import dis
import fcntl
import gc
import os
import sys
import threading
import types

from symx.ctx import Eq

POINTS = frozenset(i for i, n in enumerate(dis.opname) if n in ("CALL", "CALL_KW", "CALL_FUNCTION_EX", "STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_GLOBAL"))
LOCAL = threading.local()
CODES = {}
FILES = set()
TOOL = 3


class Kill(BaseException):
    pass


class Thread:
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.ready = None
        self.result = self.exc = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        LOCAL.me = self
        try:
            if not self.sim.kill:
                self.result = self.fn()
        except BaseException as e:
            self.exc = e
        self.done = True
        self.sim.main.release()

    def point(self, ready=None):
        """Give the baton away; come back when scheduled (and ready)."""
        self.ready = ready
        self.sim.main.release()
        self.go.acquire()
        self.ready = None
        if self.sim.kill:
            raise Kill


def instruction(code, offset):
    if offset not in CODES[code]:
        return sys.monitoring.DISABLE
    t = getattr(LOCAL, "me", None)
    if t is not None and not t.sim.kill and code.co_filename.endswith(t.sim.files):
        t.point()


def instrument(files):
    """Report the instructions of all functions of these source files."""
    files = tuple(set(files) - FILES)
    if not files:
        return
    mon = sys.monitoring
    if not FILES:
        mon.use_tool_id(TOOL, "interleave")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, instruction)
    FILES.update(files)
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename.endswith(files)]
    while todo:
        code = todo.pop()
        CODES[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opcode in POINTS)
        todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
        mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)


def me():
    return getattr(LOCAL, "me", None)


def point(ready=None):
    t = me()
    if t is not None and not t.sim.kill:
        t.point(ready)


class Sim:
    def __init__(self, ctx, preemptions, files=(), limit=2000):
        self.ctx, self.preemptions, self.limit = ctx, preemptions, limit
        self.files = tuple(os.sep + os.path.join("asyncz", f) for f in files)
        instrument(self.files)
        self.main = threading.Semaphore(0)
        self.kill = False
        self.threads = []
        self.points = 0
        self.switches = 0

    def spawn(self, name, fn):
        t = Thread(self, name, fn)
        self.threads.append(t)
        t.thread.start()
        return t

    def step(self, t):
        t.go.release()
        self.main.acquire()
        if t.exc is not None and type(t.exc).__module__ == "symx.engine":
            raise t.exc

    def run(self):
        """-> None, or the list of threads that wait for each other."""
        ctx = self.ctx
        cur = None
        used = 0
        # the schedule: the points at which the running thread is preempted (0: not at all)
        at = [ctx.int("preempt", 0, self.limit) for _ in range(self.preemptions)]
        try:
            while True:
                alive = [t for t in self.threads if not t.done]
                if not alive:
                    return None
                ready = [t for t in alive if t.ready is None or t.ready()]
                if not ready:
                    return [t.name for t in alive]
                if cur is None or cur not in ready:
                    cur = ready[0] if len(ready) == 1 else ctx.choice("next", ready)
                elif len(ready) > 1 and used < self.preemptions:
                    self.points += 1
                    assert self.points < self.limit
                    if bool(Eq(at[used], self.points)):
                        used += 1
                        self.switches += 1
                        others = [t for t in ready if t is not cur]
                        cur = others[0] if len(others) == 1 else ctx.choice("switch to", others)
                self.step(cur)
        finally:
            self.close()

    def close(self):
        self.kill = True
        for t in self.threads:
            while not t.done:
                t.go.release()
                if not self.main.acquire(timeout=5):
                    break  # blocked in something unmodelled


class MRLock:
    """threading.RLock (reentrant) / Lock with modelled waiting."""

    reentrant = True

    def __init__(self):
        self.owner, self.depth = None, 0

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        who = me() or "main"
        point()
        if self.owner is who and self.reentrant:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            if me() is None:
                raise AssertionError("the main thread would wait for ever")
            if timeout is not None and timeout >= 0:
                return False
            point(self._free)
        self.owner, self.depth = who, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class MLock(MRLock):
    reentrant = False


_LOCK, _RLOCK = threading.Lock, threading.RLock


class FakeThreading:
    Lock, RLock = MLock, MRLock

    def __getattr__(self, n):
        return getattr(threading, n)


def locks(*modules):
    """Patch list: the locks these modules create are modelled."""
    out = []
    for m in modules:
        for k, v in list(vars(sys.modules[m]).items()):
            if v is _RLOCK:
                out.append((m, k, MRLock))
            elif v is _LOCK:
                out.append((m, k, MLock))
            elif v is threading:
                out.append((m, k, FakeThreading()))
    return out


# -- processes: the system calls on files are the points -----------------------
def audit(event, args):
    if event in ("open", "os.remove", "os.rename") and me() is not None:
        point()


_hooked = []
_flock, _stat, _fstat = fcntl.flock, os.stat, os.fstat


def flock(fd, flags):
    """The real flock; waiting for a lock is a scheduling decision."""
    if me() is None or not flags & (fcntl.LOCK_EX | fcntl.LOCK_SH):
        point()
        return _flock(fd, flags)
    point()
    if flags & fcntl.LOCK_NB:
        return _flock(fd, flags)
    while True:
        try:
            return _flock(fd, flags | fcntl.LOCK_NB)
        except BlockingIOError:
            n = fd if isinstance(fd, int) else fd.fileno()
            point(lambda: probe(n, flags))


def probe(n, flags):
    """Could the lock be taken now?  (asked through an open file of its own)"""
    with open("/proc/self/fd/%d" % n, "rb") as f:
        try:
            _flock(f, flags | fcntl.LOCK_NB)
        except BlockingIOError:
            return False
    return True


def stat(*a, **kw):
    point()
    return _stat(*a, **kw)


def fstat(*a, **kw):
    point()
    return _fstat(*a, **kw)


def syscalls():
    if not _hooked:
        sys.addaudithook(audit)
        _hooked.append(1)
    return [("fcntl", "flock", flock), ("os", "stat", stat), ("os", "fstat", fstat)]

"""P20 events reach exactly the matching listeners, and listeners cannot do harm."""
import datetime

import asyncz.stores.memory  # noqa: F401
from harness import p19
from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "up to four (thorough: five) listeners with arbitrary 17-bit masks and failures, arbitrary event codes, listeners that add or remove listeners or call back into the scheduler; every operation that dispatches events, in sequences of two (thorough: three)"
OUTSIDE = "listeners registered from other threads while an event is dispatched; masks that are not integers"
ASSUMPTIONS = []
LO, HI = T0, T0 + 4 * DAY
FULL = 2 ** 17 - 1


class Boom(BaseException):
    pass


ERRORS = [None, ValueError("listener"), SystemExit(1), Boom()]


def constants():
    from asyncz.events import constants as c

    return {k: getattr(c, k) for k in dir(c) if k.isupper() and k != "ALL_EVENTS"}


def matches(ctx, code, mask):
    """code & mask != 0, computed independently: some bit is set in both."""
    bits = []
    for k in range(20):
        b = 2 ** k
        bits.append(And(Eq(code // b % 2, 1), Eq(mask // b % 2, 1)))
    return Or(*bits)


def dispatch(ctx, n, nevents):
    from asyncz.events.base import SchedulerEvent
    from asyncz.events.constants import ALL_EVENTS

    log = W.Log()
    s = W.scheduler(log)
    masks = []
    for i in range(n):
        err = ctx.choice("error", ERRORS[:3] if n > 2 else ERRORS)

        def cb(e, i=i, err=err):
            log.append(("call", i, e))
            if err is not None:
                raise err

        if ctx.flag("default mask"):
            masks.append(ALL_EVENTS)
            s.add_listener(cb)
        else:
            m = ctx.int("mask", 0, FULL)
            masks.append(m)
            s.add_listener(cb, m)
    ctx.check(ALL_EVENTS == FULL, "the default mask does not cover every event")
    for k in range(nevents):
        code = ctx.int("code", 0, FULL)
        e = SchedulerEvent(code=code)
        del log[:]
        s.dispatch_event(e)
        got = [(x[1], x[2]) for x in log.kinds("call")]
        ctx.check([g[0] for g in got] == sorted(set(g[0] for g in got)), "listeners are not notified once each in registration order")
        ctx.check(all(g[1] is e for g in got), "a listener gets another event")
        called = [g[0] for g in got]
        for i in range(n):
            ctx.check(Eq(matches(ctx, code, masks[i]), i in called), "a listener is notified of an event outside its mask, or not of one inside")
        ctx.reach("called" if called else "silent")


def codes(ctx):
    """Every event code is its own bit of ALL_EVENTS; a symbolic single-event mask selects it alone."""
    from asyncz.events.base import SchedulerEvent
    from asyncz.events.constants import ALL_EVENTS

    cs = constants()
    values = sorted(set(cs.values()))
    log = W.Log()
    s = W.scheduler(log)
    i = ctx.split(ctx.int("i", 0, len(values) - 1))
    j = ctx.split(ctx.int("j", 0, len(values) - 1))
    s.add_listener(lambda e: log.append(("one", e)), values[i])
    s.add_listener(lambda e: log.append(("all", e)))
    s.add_listener(lambda e: log.append(("others", e)), ALL_EVENTS & ~values[i])
    s.dispatch_event(SchedulerEvent(code=values[j]))
    ctx.check(len(log.kinds("all")) == 1, "an event misses the listener for all events")
    ctx.check(len(log.kinds("one")) == (i == j), "events share their code")
    ctx.check(len(log.kinds("others")) == (i != j), "events share their code")
    ctx.check(len(set(cs.values())) >= 17, "event codes coincide")
    ctx.reach("done")


def mutate(ctx, n, what):
    """A listener changes the listeners while it is notified."""
    from asyncz.events.base import SchedulerEvent

    log = W.Log()
    s = W.scheduler(log)
    actor = ctx.choice("actor", list(range(n)))
    target = ctx.choice("target", list(range(n)))
    cbs = []
    err = ctx.choice("error", ERRORS[:2])
    acted = []

    def late(e):
        log.append(("call", "late"))

    for i in range(n):
        def cb(e, i=i):
            log.append(("call", i))
            if i == actor and not acted:
                acted.append(1)
                if what == "remove":
                    ctx.check(s.remove_listener(cbs[target]) is True, "removing a registered listener reports failure")
                elif what == "add":
                    s.add_listener(late)
                elif what == "dispatch":
                    s.dispatch_event(SchedulerEvent(code=4))
                if err is not None:
                    raise err

        cbs.append(cb)
        s.add_listener(cb, 1 if i != n - 1 or what == "dispatch" else 3)
    s.dispatch_event(SchedulerEvent(code=1))
    got = [x[1] for x in log.kinds("call")]
    if what == "remove":
        ctx.check([g for g in got if g != target] == [i for i in range(n) if i != target], "removing a listener while notifying disturbs the others")
        ctx.check(got.count(target) <= 1, "a listener is notified twice")
    else:
        ctx.check([g for g in got if g != "late"] == list(range(n)), "adding a listener while notifying disturbs the others")
    del log[:]
    s.dispatch_event(SchedulerEvent(code=1))
    got = [x[1] for x in log.kinds("call")]
    ctx.check(got == [i for i in range(n) if not (what == "remove" and i == target)] + (["late"] if what == "add" else []), "the change of listeners is lost")
    ctx.check(s.remove_listener(lambda e: None) is False, "removing an unknown listener reports success")
    ctx.reach("done")


def prepare(ctx, log, hostile):
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = p19.build(ctx, "base", log, executors=("default", "second"), stores=("default", "two"))
    err = None
    if hostile:
        err = ctx.choice("error", ERRORS[1:])

        def bad(e):
            log.append(("bad", e))
            raise err

        s.listeners.insert(0, (bad, FULL))
    return s, now


# operation -> (codes dispatched, task id, alias/store) in order
OPS = ["add", "update", "pause task", "resume task", "reschedule", "delete", "clear", "clear two", "add executor", "remove executor", "add store", "remove store", "pause", "resume", "run", "round", "shutdown"]


def operations(ctx, ops, hostile, reenter=None):
    """The events of an operation: each exactly once, to each matching listener, and failures of listeners change nothing."""
    from asyncz.events import constants as C
    from asyncz.exceptions import TaskLookupError

    log = W.Log()
    s, now = prepare(ctx, log, hostile)
    mask = ctx.int("mask", 0, FULL) if len(ops) == 1 else FULL if ctx.flag("all") else 0x15555
    seen = []
    s.add_listener(lambda e: seen.append(e), mask)
    b = ctx.dt("b", LO, HI + 2 * DAY, UTC)
    ctx.assume(b > now)
    call = p19.call
    call(s, "start")
    call(s, "add_task", W.noop, make_trigger([b]), id="x", next_run_time=b, mistrigger_grace_time=None)
    call(s, "add_task", W.noop, make_trigger([b]), id="y", store="two", next_run_time=b, mistrigger_grace_time=None)
    state = {"x": b, "y": b}
    running = True
    execs, stores = {"default", "second"}, {"default", "two"}
    del log[:], seen[:]
    ctx.check(sorted(t.id for t in s.get_tasks()) == ["x", "y"], "setting up fails")
    for op in ops:
        n0 = len(log)
        want = []
        exc = None
        if op == "add":
            _, exc = call(s, "add_task", W.noop, make_trigger([b]), id="z")
            if "z" in state:
                ctx.check(exc is not None, "a conflict goes unnoticed")
                continue
            want = [(C.TASK_ADDED, "z", "default")]
            state["z"] = b
        elif op in ("update", "pause task", "reschedule", "resume task", "delete", "run"):
            if op == "update":
                _, exc = call(s, "update_task", "y", None, name="other")
                kind = C.TASK_MODIFIED
            elif op == "pause task":
                _, exc = call(s, "pause_task", "y")
                kind = C.TASK_MODIFIED
            elif op == "reschedule":
                _, exc = call(s, "reschedule_task", "y", None, make_trigger([b]))
                kind = C.TASK_MODIFIED
            elif op == "resume task":
                _, exc = call(s, "resume_task", "y")
                kind = C.TASK_MODIFIED
            elif op == "run":
                _, exc = call(s, "run_task", "y", force=True)
                kind = C.TASK_SUBMITTED
            else:
                _, exc = call(s, "delete_task", "y")
                kind = C.TASK_REMOVED
            if "y" not in state:
                ctx.check(isinstance(exc, TaskLookupError), "an unknown task goes unnoticed")
                continue
            want = [(kind, "y", "two")]
            if op == "pause task":
                state["y"] = None
            elif op == "delete":
                del state["y"]
            else:
                state["y"] = b if op != "update" else state["y"]
        elif op in ("clear", "clear two"):
            _, exc = call(s, "remove_all_tasks", None if op == "clear" else "two")
            want = [(C.ALL_TASKS_REMOVED, None, None if op == "clear" else "two")]
            state = {} if op == "clear" else {k: v for k, v in state.items() if k != "y"}
        elif op == "add executor":
            _, exc = call(s, "add_executor", W.executor(log, "third"), "third")
            if "third" in execs:
                continue
            want = [(C.EXECUTOR_ADDED, None, "third")]
            execs.add("third")
        elif op == "remove executor":
            _, exc = call(s, "remove_executor", "second")
            if "second" not in execs:
                continue
            want = [(C.EXECUTOR_REMOVED, None, "second")]
            execs.discard("second")
        elif op == "add store":
            from asyncz.stores.memory import MemoryStore

            _, exc = call(s, "add_store", MemoryStore(), "three")
            if "three" in stores:
                continue
            want = [(C.STORE_ADDED, None, "three")]
            stores.add("three")
        elif op == "remove store":
            _, exc = call(s, "remove_store", "two")
            if "two" not in stores:
                continue
            want = [(C.STORE_REMOVED, None, "two")]
            stores.discard("two")
            state.pop("y", None)
        elif op in ("pause", "resume"):
            _, exc = call(s, op)
            if running == (op == "pause"):
                want = [(C.SCHEDULER_PAUSED if op == "pause" else C.SCHEDULER_RESUMED, None, None)]
            running = op == "resume"
        elif op == "round":
            _, exc = call(s, "process_tasks")
        elif op == "shutdown":
            _, exc = call(s, "shutdown")
            want = [(C.SCHEDULER_SHUTDOWN, None, None)]
        ctx.check(exc is None, "the operation %s fails: %r" % (op, exc))
        evs = [e[1] for e in log[n0:] if e[0] == "event"]
        ctx.check([e.code for e in evs] == [w[0] for w in want], "operation %s dispatches other events than its own, once" % op)
        if hostile:
            ctx.check(len([1 for e in log[n0:] if e[0] == "bad"]) == len(evs), "a failing listener is not notified like the others")
        for e, (code, tid, where) in zip(evs, want):
            if tid is not None:
                ctx.check(e.task_id == tid and e.store == where and e.scheduler_identity == "s", "the event names another task, store or scheduler")
            else:
                ctx.check(e.alias == where, "the event names another store or executor")
        # the masked listener saw exactly the matching events
        for e in evs:
            ctx.check(Eq(matches(ctx, e.code, mask), any(x is e for x in seen)), "a listener misses an event of its mask or gets another one")
        ctx.check(len(seen) == len(set(map(id, seen))), "a listener gets an event twice")
        del seen[:]
        if op == "shutdown":
            ctx.check(not s.running, "the operation has no effect")
            ctx.reach("end")
            return
        ctx.check(sorted(s.executors) == sorted(execs) and sorted(s.stores) == sorted(stores), "the operation has no effect")
        got = {t.id: t.next_run_time for t in s.get_tasks()}
        ctx.check(sorted(got) == sorted(state), "the operation has another effect because of a listener")
        for k, v in state.items():
            ctx.check(W.same(ctx, got[k], v), "the operation has another effect because of a listener")
        ctx.reach("ok")
    ctx.reach("end")


def reentrant(ctx, op):
    """A listener that calls back into the scheduler: both operations take effect, nothing deadlocks."""
    from asyncz.events import constants as C

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = p19.build(ctx, "base", log)
    d = ctx.dt("d", LO, HI + DAY, UTC)
    ctx.assume(d > now)
    call = p19.call
    done = []

    def cb(e):
        if done or e.task_id != "x":
            return
        done.append(1)
        if op == "delete":
            s.delete_task("x")
        elif op == "pause":
            s.pause_task("x")
        elif op == "add":
            s.add_task(W.noop, make_trigger([d]), id="w")
        elif op == "shutdown":
            s.shutdown()

    s.add_listener(cb, C.TASK_ADDED)
    started = ctx.flag("started")
    if started:
        call(s, "start")
    _, exc = call(s, "add_task", W.noop, make_trigger([d]), id="x")
    ctx.check(exc is None, "adding fails because of a listener")
    if not started:
        if op in ("shutdown", "delete", "pause"):
            return  # the scheduler is not running yet when the event is dispatched
        call(s, "start")
    ctx.check(done == [1], "the listener is not notified")
    if op == "shutdown":
        ctx.check(not s.running, "the listener's operation is lost")
    else:
        got = {t.id: t.next_run_time for t in s.get_tasks()}
        ctx.check(sorted(got) == {"delete": [], "pause": ["x"], "add": ["w", "x"]}[op], "the listener's operation is lost or disturbs the other one")
        for k, v in got.items():
            ctx.check(W.same(ctx, v, None if op == "pause" else d), "the listener's operation is lost or disturbs the other one")
    ctx.reach("done")


def instances(tier):
    q = tier == "quick"
    out = []
    opts = dict(seconds=700 if q else 5000, extra=p19.PATCH, extra_concrete=p19.PATCH)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(dict(name="%d listeners" % n, fn=dispatch, reach=["called", "silent"], weight=n * 3, params=dict(n=n, nevents=1 if n > 2 else 2), opts=opts))
    out.append(dict(name="codes", fn=codes, reach=["done"], opts=opts))
    for n in (1, 2, 3, 4):
        for what in ("remove", "add", "dispatch"):
            if what == "dispatch":
                continue
            out.append(dict(name="%s while notifying %d" % (what, n), fn=mutate, reach=["done"], params=dict(n=n, what=what), opts=opts))
    for op in OPS:
        out.append(dict(name="op %s" % op, fn=operations, reach=["end"], params=dict(ops=[op], hostile=True), opts=opts))
        out.append(dict(name="op %s quiet" % op, fn=operations, reach=["end"], params=dict(ops=[op], hostile=False), opts=opts))
        for op2 in OPS:
            if op != "shutdown":
                out.append(dict(name="ops %s, %s" % (op, op2), fn=operations, reach=[], params=dict(ops=[op, op2], hostile=True), opts=opts))
            if not q and op != "shutdown":
                for op3 in OPS:
                    if op2 != "shutdown":
                        out.append(dict(name="ops %s, %s, %s" % (op, op2, op3), fn=operations, reach=[], params=dict(ops=[op, op2, op3], hostile=False), opts=opts))
    for op in ("delete", "pause", "add", "shutdown"):
        out.append(dict(name="reentrant %s" % op, fn=reentrant, reach=["done"], params=dict(op=op), opts=opts))
    return out

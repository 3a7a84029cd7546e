"""P11 pause, resume, reschedule, update and remove."""
import contextlib
import warnings

from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "histories of two (thorough: three) operations on two tasks in two stores, scheduler stopped, running or started in between; triggers with any start time and at most one later fire time; explicit run times any instant"
OUTSIDE = "longer histories; concurrent operations (serialised by the store lock); stores other than memory (P14-P17)"
ASSUMPTIONS = ["triggers return strictly increasing fire times not before the current time"]
LO, HI = T0, T0 + 4 * DAY
warnings.filterwarnings("ignore", module="pydantic")
OPS = ["pause", "resume", "reschedule", "rename", "set time", "delete"]


def gone(ctx, m):
    from asyncz.exceptions import TaskLookupError

    return TaskLookupError


def first(times, now):
    for x in times:
        if x >= now:
            return x
    return None


def verify(ctx, s, model, started):
    """The scheduler's tasks are exactly the model's."""
    got = {t.id: t for t in s.get_tasks()}
    ctx.check(sorted(got) == sorted(model), "the set of tasks is wrong")
    for tid, m in model.items():
        t = got[tid]
        ctx.check(t.name == m["name"], "the name of a task is wrong")
        ctx.check(t.trigger is m["trigger"], "the trigger of a task is wrong")
        if m["next"] != "unset":
            ctx.check(W.same(ctx, t.next_run_time, m["next"]), "the next run time of a task is wrong")
        ctx.check(t.executor == m["executor"] and t.max_instances == 3 and t.coalesce, "another attribute of a task changed")
        if started:
            ctx.check(s.get_task(tid, m["store"]) is not None, "the task left its store")
            ctx.check(s.get_task(tid, "two" if m["store"] == "default" else "default") is None, "the task is in another store")
            dues = [x.id for x in s.stores[m["store"]].get_due_tasks(m["probe"])]
            ctx.check((tid in dues) == (m["next"] is not None and bool(m["next"] <= m["probe"])), "the store's schedule disagrees with the task")
    for tid in ("a", "b"):
        if tid not in model:
            ctx.check(s.get_task(tid) is None, "a removed task is still known")


def history(ctx, mode, ops, via):
    from asyncz.events.constants import TASK_MODIFIED, TASK_REMOVED
    from asyncz.exceptions import TaskLookupError

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    s = W.scheduler(log)
    s.add_executor(W.executor(log, "default"), "default")
    s.add_executor(W.executor(log, "ex2"), "ex2")
    s.add_store("memory", "default")
    s.add_store("memory", "two")
    ctx.fixed_clock(now)
    probe = ctx.dt("probe", LO, HI, UTC)
    model = {}
    for tid, store, ex, n in (("a", "default", "default", 2), ("b", "two", "ex2", 1)):
        times = [ctx.dt(tid, LO, HI, UTC)]
        if n == 2:
            times.append(ctx.dt(tid, LO, HI, UTC))
            ctx.assume(times[1] > times[0])
        trig = make_trigger(times)
        s.add_task(W.noop, trig, id=tid, name="task " + tid, store=store, executor=ex, max_instances=3, coalesce=True)
        model[tid] = dict(times=times, trigger=trig, name="task " + tid, store=store, executor=ex, next="unset", explicit=False, probe=probe)
    started = False

    def start():
        s.start()
        for m in model.values():
            if m["next"] == "unset":
                m["next"] = first(m["times"], now)

    if mode == "running":
        start()
        started = True
    W.listen(s)
    for k, op in enumerate(ops):
        if mode == "between" and k == 1:
            start()
            started = True
            verify(ctx, s, model, True)
        tid = "a" if k == 0 and len(ops) < 4 else ctx.choice("task", ["a", "b"])
        handle = tid
        m = model.get(tid)
        if via == "object":
            if m is None:
                return
            handle = s.get_task(tid)
        store = m["store"] if m is not None and via == "store" else None
        del log[:]
        raised = res = None
        new = newname = None
        try:
            if via == "method":
                if m is None:
                    return
                t = s.get_task(tid)
                if op == "pause":
                    res = t.pause()
                elif op == "resume":
                    res = t.resume()
                elif op == "reschedule":
                    new = [ctx.dt("new", LO, HI, UTC)]
                    newtrig = make_trigger(new)
                    res = t.reschedule(newtrig)
                elif op == "rename":
                    res = t.update(name="renamed")
                elif op == "set time":
                    new = ctx.dt("set", LO, HI, UTC)
                    res = t.update(next_run_time=new)
                else:
                    res = t.delete()
            elif op == "pause":
                res = s.pause_task(handle, store)
            elif op == "resume":
                res = s.resume_task(handle, store)
            elif op == "reschedule":
                new = [ctx.dt("new", LO, HI, UTC)]
                newtrig = make_trigger(new)
                res = s.reschedule_task(handle, store, newtrig)
            elif op == "rename":
                res = s.update_task(handle, store, name="renamed")
            elif op == "set time":
                new = ctx.dt("set", LO, HI, UTC)
                res = s.update_task(handle, store, next_run_time=new)
            else:
                res = s.delete_task(handle, store)
        except TaskLookupError as e:
            raised = e
        if m is None:
            ctx.reach("unknown")
            ctx.check(raised is not None, "an operation on an unknown task is not an error")
            verify(ctx, s, model, started)
            continue
        ctx.check(raised is None, "a known task is reported as unknown")
        ctx.reach(op)
        removed = False
        if op == "pause":
            m["next"] = None
        elif op == "resume":
            m["next"] = first(m["times"], now)
            removed = m["next"] is None
        elif op == "reschedule":
            m["times"], m["trigger"] = new, newtrig
            m["next"] = first(new, now)
        elif op == "rename":
            m["name"] = "renamed"
        elif op == "set time":
            m["next"] = new
        else:
            removed = True
        if not started and not removed and op == "reschedule" and m["next"] is None:
            m["next"] = None
        evs = [e for _, e in log.kinds("event")]
        if removed:
            ctx.reach("removed")
            del model[tid]
            ctx.check(len([e for e in evs if e.code == TASK_REMOVED and e.task_id == tid]) == 1, "a removal is not announced once")
        else:
            ctx.check(len([e for e in evs if e.code == TASK_MODIFIED and e.task_id == tid]) == 1, "a modification is not announced once")
            ctx.check(not started or log.kinds("wakeup"), "the scheduler is not woken after a change")
        verify(ctx, s, model, started)
    if mode == "later":
        start()
        verify(ctx, s, model, True)
        ctx.reach("started")
    # paused tasks do not run, whatever the time
    if mode != "stopped":
        ctx.fixed_clock(probe)
        ctx.assume(probe >= now)
        del log[:]
        s.process_tasks()
        ran = [x[2] for x in log.kinds("send")]
        for tid, m in model.items():
            due = m["next"] is not None and bool(m["next"] <= probe)
            ctx.check(ran.count(tid) == (1 if due else 0), "a task was run although paused / not run although due")
        ctx.check(all(r in model for r in ran), "a removed task was run")
        ctx.reach("round")


def remove_all(ctx, mode):
    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = W.scheduler(log)
    s.add_store("memory", "default")
    s.add_store("memory", "two")
    s.add_executor(W.executor(log, "default"), "default")
    where = {}
    for tid in ("a", "b", "c"):
        where[tid] = ctx.choice(tid, ["default", "two"])
        s.add_task(W.noop, make_trigger([ctx.dt(tid, LO, HI, UTC)]), id=tid, store=where[tid])
    if mode != "pending":
        s.start()
    target = ctx.choice("target", [None, "default", "two"])
    s.remove_all_tasks(target)
    if mode == "later":
        pass
    left = sorted(t.id for t in s.get_tasks())
    ctx.check(left == sorted(t for t in where if target is not None and where[t] != target), "wrong tasks removed")
    ctx.reach("ok")
    if mode == "pending":
        s.start()
        left2 = sorted(t.id for t in s.get_tasks())
        ctx.check(left2 == left, "removed pending tasks come back at start")


def instances(tier):
    out = []
    for mode in ("running", "stopped", "between", "later"):
        for via in ("id", "store", "object", "method"):
            if via == "store" and mode != "running":
                continue
            for o1 in OPS:
                for o2 in OPS:
                    seqs = [[o1, o2]]
                    if tier != "quick":
                        seqs = [[o1, o2, o3] for o3 in OPS]
                    for ops in seqs:
                        out.append(dict(name="%s via %s: %s" % (mode, via, ", ".join(ops)), fn=history, params=dict(mode=mode, ops=ops, via=via), reach=[]))
    for mode in ("running", "pending"):
        out.append(dict(name="remove all %s" % mode, fn=remove_all, params=dict(mode=mode), reach=["ok"]))
    return out

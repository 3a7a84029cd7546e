"""P25 the dashboard's run history, event feed, audit trail and logs."""
import datetime as D
import itertools
import logging

import asyncz.contrib.dashboard.audit
import asyncz.contrib.dashboard.events
import asyncz.contrib.dashboard.history
import asyncz.contrib.dashboard.logs.handler
import asyncz.contrib.dashboard.logs.storage
import asyncz.executors.debug  # noqa: F401
import asyncz.stores.memory  # noqa: F401
from asyncz.events import constants as C
from harness import interleave as I
from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "up to three events (thorough: four) of every kind for up to six runs (two tasks, two stores, two fire times, one of them written in three ways), storages of one to four records, up to three records per query with every filter, limits from 0 to 4, arbitrary clocks; log entries with arbitrary times, windows and messages of three characters; a submission and an outcome recorded by two threads with every schedule of one preemption (thorough: two); one scheduler pass with up to two tasks"
OUTSIDE = "more events; ids outside a pool of thirteen; SHA-256 collisions; the HTML pages"
ASSUMPTIONS = ["logging calls handlers as documented"]
LO, HI = T0, T0 + 4 * DAY
BASE = D.datetime(2024, 3, 1, 12, 0, tzinfo=D.timezone.utc)
TIMES = [BASE, BASE + D.timedelta(hours=1), BASE.astimezone(D.timezone(D.timedelta(hours=2))), BASE.replace(tzinfo=None)]
SAME = [0, 1, 0, 0]  # TIMES[i] denotes the same instant as TIMES[SAME[i]]
CODE = dict(sub=C.TASK_SUBMITTED, max=C.TASK_MAX_INSTANCES, ok=C.TASK_EXECUTED, err=C.TASK_ERROR, miss=C.TASK_MISSED)
DONE = dict(ok="succeeded", err="failed", miss="missed")


class NoTasks:
    """A scheduler that knows no task any more."""

    identity = "sched"

    def get_task(self, *a):
        raise LookupError(a)


def shared(*modules):
    """The module's own shared storage, empty."""
    out = []
    for m in modules:
        m = getattr(asyncz.contrib.dashboard, m)
        out.append((m.__name__, "_storage", None))
    return out


def top(ctx, got, matches, limit, when, what):
    """`got` are the newest min(limit, n) of `matches`, newest first."""
    ctx.check(all(any(r is m for m in matches) for r in got), "%s: a record that does not satisfy the filters is returned" % what)
    ctx.check(all(a is not b for a, b in itertools.combinations(got, 2)), "%s: a record is returned twice" % what)
    n = len(matches)
    ctx.check(Or(And(limit >= n, Eq(len(got), n)), And(limit < n, Eq(limit, len(got)))), "%s: not exactly the matching records up to the limit are returned" % what)
    for a, b in zip(got, got[1:]):
        ctx.check(when(a) >= when(b), "%s: the records are not ordered newest first" % what)
    if got:
        for m in matches:
            if not any(r is m for r in got):
                ctx.check(when(m) <= when(got[-1]), "%s: an older record is returned instead of a newer one" % what)


# -- run history -----------------------------------------------------------------
POOL = [("a", None), ("b", None), ("a", "s")]


def event(ctx, kind, task, store, times, k):
    from asyncz.events.base import TaskExecutionEvent, TaskSubmissionEvent

    if kind in ("sub", "max"):
        return TaskSubmissionEvent(code=CODE[kind], task_id=task, store=store, scheduled_run_times=times, source=["scheduled", "manual"][k % 2], coalesced_run_count=k, scheduler_identity="id%d" % k)
    exc = ValueError("boom %d" % k) if kind == "err" else None
    return TaskExecutionEvent(code=CODE[kind], task_id=task, store=store, scheduled_run_time=times[0], return_value=["r", k] if kind == "ok" else None, exception=exc, traceback="tb %d" % k if exc else None)


class Expect:
    def __init__(self, key):
        self.key = key
        self.events = []  # (kind, time, number)

    def outcome(self):
        ends = [e for e in self.events if e[0] in DONE]
        if ends:
            return DONE[ends[-1][0]], ends[-1]
        m = [e for e in self.events if e[0] == "max"]
        if m:
            return "max_instances", m[0]
        return "running", None

    def when(self):
        _, end = self.outcome()
        return end[1] if end else self.events[0][1]


def history(ctx, kinds, maxlen, flt, two=False):
    import asyncz.contrib.dashboard.history as H

    st = H.MemoryRunHistoryStorage(maxlen=maxlen)
    logs = asyncz.contrib.dashboard.logs.storage.MemoryLogStorage(maxlen=20)
    now = []
    last = [None]

    def clock(tz):
        d = ctx.dt("t%d" % len(now), LO, HI)
        if now:
            ctx.assume(d >= now[-1])
        now.append(d)
        return d

    ctx.clock_fn = clock
    live, order = {}, []  # runs in the storage, oldest first

    def note(key, kind, k, t):
        if key not in live:
            live[key] = Expect(key)
            order.append(key)
            if len(order) > maxlen:
                del live[order.pop(0)]
        if key in live:
            live[key].events.append((kind, t, k))

    for k, kind in enumerate(kinds):
        task, store = POOL[0] if not k else ctx.choice("task", POOL)
        t = 0 if not k else ctx.choice("time", range(len(TIMES)))
        times = [TIMES[t]]
        if two and kind in ("sub", "max"):
            times.append(TIMES[1 if SAME[t] == 0 else 0])
        n = len(now)
        e = event(ctx, kind, task, store, times, k)
        if kind in ("sub", "max"):
            recs = st.record_submission(e, scheduler=NoTasks(), log_storage=logs)
            ctx.check(len(recs) == len(times), "a submission of %d runs gives %d records" % (len(times), len(recs)))
        else:
            recs = [st.record_execution(e, scheduler=NoTasks(), log_storage=logs)]
        at = now[n]
        for r, x in zip(recs, times):
            note((task, store, SAME[TIMES.index(x)] if x in TIMES[:2] else SAME[t]), kind, k, at)
    ctx.fixed_clock(now[-1])
    # exactly one record per run, with its outcome
    recs = st.query(limit=100)
    ctx.check(len(recs) == len(live), "%d runs have %d records" % (len(live), len(recs)))
    by = {}
    for r in recs:
        key = (r.task_id, r.store, [i for i in (0, 1) if TIMES[i] == r.scheduled_run_time][0])
        ctx.check(key not in by, "a run has two records")
        ctx.check(st.get(r.run_id) is r, "a record is not found by its id")
        by[key] = r
    ctx.check(set(by) == set(live), "the records are not those of the latest %d runs" % maxlen)
    for key, x in live.items():
        r = by[key]
        status, end = x.outcome()
        ctx.check(r.status == status, "a run is %s, but recorded as %s" % (status, r.status))
        ctx.check(r.submitted_at == x.events[0][1], "the submission time of a run is wrong")
        ctx.check(r.created_at == x.events[0][1] and r.updated_at == x.events[-1][1], "the creation or update time of a record is wrong")
        if end is None:
            ctx.check(r.finished_at is None and r.duration_ms is None, "a running run has an end")
        else:
            ctx.check(r.finished_at == end[1], "the end of a run is wrong")
            ms = r.duration_ms
            d = ctx.us(r.finished_at) - ctx.us(r.submitted_at)
            ctx.check(And(ms >= 0, Or(d < 0, And(ms * 1000 <= d, d < ms * 1000 + 1000))), "the duration of a run is wrong")
            ctx.reach(status)
        n = end[2] if end else None
        ctx.check(r.return_value == (repr(["r", n]) if status == "succeeded" else None), "the result of a run is wrong")
        ctx.check((r.exception_type, r.exception_message, r.traceback) == (("ValueError", "boom %d" % n, "tb %d" % n) if status == "failed" else (None, None, None)), "the error of a run is wrong")
        subs = [e for e in x.events if e[0] in ("sub", "max")]
        ctx.check(r.source == (["scheduled", "manual"][subs[-1][2] % 2] if subs else "unknown"), "the source of a run is wrong")
        ctx.check(r.coalesced_run_count == max([e[2] for e in subs] or [0]), "the number of coalesced runs is wrong")
        who = "id%d" % x.events[0][2] if x.events[0][0] in ("sub", "max") else None
        ctx.check(who is None or r.scheduler_identity == who, "the scheduler of a run is wrong")
        # its log lines
        mine = [e for e in logs.query(run_id=r.run_id, limit=50)]
        if maxlen >= 4:
            ends = [e for e in x.events if e[0] in DONE]
            want = []
            done = False
            for kind, _, _ in x.events:
                if kind == "sub":
                    want += [] if done else ["INFO"]
                else:
                    want.append(dict(ok="INFO", err="ERROR", miss="WARNING", max="WARNING")[kind])
                    done = True
            ctx.check([e.level for e in reversed(mine)] == want, "the log lines of a run are %s instead of %s" % ([e.level for e in reversed(mine)], want))
            ctx.check(all(e.task_id == r.task_id for e in mine), "a log line belongs to another task")
    s = st.summary()
    for name in ("running", "succeeded", "failed", "missed", "max_instances"):
        ctx.check(s[name] == len([1 for x in live.values() if x.outcome()[0] == name]), "the summary counts %s runs wrongly" % name)
    ctx.check(s["total"] == len(live), "the summary's total is wrong")
    # queries
    q = {}
    rows = list(live)
    if flt in ("task", "all"):
        q["task_id"] = ctx.choice("filter task", ["a", "b"])
        rows = [k for k in rows if k[0] == q["task_id"]]
    if flt in ("status", "all"):
        q["status"] = ctx.choice("filter status", ["running", " Succeeded", "failed", "max_instances"])
        rows = [k for k in rows if live[k].outcome()[0] == q["status"].strip().lower()]
    if flt in ("source", "all"):
        q["source"] = ctx.choice("filter source", ["manual", "SCHEDULED "])
        rows = [k for k in rows if by[k].source == q["source"].strip().lower()]
    if flt in ("q", "all"):
        q["q"] = ctx.choice("filter text", [" SUCC", "id1", "coalesc", "b", "nothing"])
        needle = q["q"].strip().lower()
        fields = lambda r: [r.task_id, r.status, r.source, r.scheduler_identity or "", "coalesced" if r.coalesced_run_count else "", r.run_id]  # noqa: E731
        rows = [k for k in rows if any(needle in f for f in fields(by[k]))]
    limit = ctx.int("limit", 0, 4)
    got = st.query(limit=limit, **q)
    keyof = {id(by[k]): k for k in by}
    top(ctx, got, [by[k] for k in rows], limit, lambda r: live[keyof[id(r)]].when(), "run history")
    if flt == "task":
        r = st.latest_for_task(q["task_id"])
        ctx.check((r is None) == (not rows), "the latest run of a task is not found")
        if rows:
            top(ctx, [r], [by[k] for k in rows], 1, lambda r: live[keyof[id(r)]].when(), "latest run")
    st.clear()
    ctx.check(st.query() == [] and st.summary()["total"] == 0 and st.get(recs[0].run_id if recs else "") is None, "records survive a clear")


IDS = ["a", "a|b", "a|b|c", "b", "a|", "|a", "", "('a', 'b')", "a', 'b"]
STORES = [None, "", "b", "b|c", "c"]


def identity(ctx, first):
    """Runs of different tasks, stores or times never share a record; the same instant always does."""
    import asyncz.contrib.dashboard.history as H

    ctx.fixed_clock(ctx.dt("now", LO, HI))
    st = H.MemoryRunHistoryStorage(maxlen=10)
    keys = []
    for k in range(2):
        keys.append((ctx.choice("id", IDS if k else IDS[first::3]), ctx.choice("store", STORES), ctx.choice("time", range(len(TIMES))) if k else 0))
    rs = []
    for k, (i, s, t) in enumerate(keys):
        rs.append(st.record_execution(event(ctx, "ok" if k else "err", i, s, [TIMES[t]], k), scheduler=NoTasks()))
    a, b = [(i, s, SAME[t]) for i, s, t in keys]
    ctx.reach("same" if a == b else "different")
    if a == b:
        ctx.check(rs[0] is rs[1] and len(st.query()) == 1, "the same run has two records")
    else:
        ctx.check(rs[0].run_id != rs[1].run_id and len(st.query()) == 2, "different runs share a record")
        for r, (i, s, t), status in zip(rs, keys, ("failed", "succeeded")):
            ctx.check(st.get(r.run_id) is r and r.task_id == i and r.store == s and r.status == status, "a run's record is overwritten by another run's")


def threads(ctx, first, second, preemptions):
    """Submission and outcome recorded by two threads: whatever the schedule, the outcome stays."""
    import asyncz.contrib.dashboard.history as H

    ctx.fixed_clock(ctx.dt("now", LO, HI))
    st = H.MemoryRunHistoryStorage(maxlen=10)
    logs = asyncz.contrib.dashboard.logs.storage.MemoryLogStorage(maxlen=20)
    sim = I.Sim(ctx, preemptions, ("contrib/dashboard/history.py",))

    def record(kind, k):
        e = event(ctx, kind, "a", None, [TIMES[0]], k)
        if kind in ("sub", "max"):
            return lambda: st.record_submission(e, scheduler=NoTasks(), log_storage=logs)
        return lambda: st.record_execution(e, scheduler=NoTasks(), log_storage=logs)

    for k, kind in enumerate((first, second)):
        sim.spawn(kind, record(kind, k))
    dead = sim.run()
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, I.Kill):
            raise t.exc
    ctx.check(dead is None, "the threads wait for each other for ever")
    rs = st.query()
    ctx.check(len(rs) == 1, "one run has %d records" % len(rs))
    want = {DONE[k] for k in (first, second) if k in DONE} or {"max_instances"} & {"max_instances" if k == "max" else "" for k in (first, second)} or {"running"}
    ctx.check(rs[0].status in want, "a run that %s is recorded as %s for ever" % (" or ".join(sorted(want)), rs[0].status))
    ctx.check((rs[0].finished_at is None) == (rs[0].status == "running"), "the end of a run does not match its outcome")
    subs = [k for k, x in enumerate((first, second)) if x in ("sub", "max")]
    if subs:
        ctx.check(rs[0].source in [["scheduled", "manual"][k] for k in subs], "the source of the run is lost")
    ctx.reach("end")


# -- end to end ------------------------------------------------------------------
def passes(ctx, n, install, manual):
    """Runs of a real scheduler: one record each, with the outcome of the function, and an event each."""
    import asyncz.contrib.dashboard.events as E
    import asyncz.contrib.dashboard.history as H
    from asyncz.executors.debug import DebugExecutor

    log = W.Log()
    s = W.scheduler(log)
    s.add_executor(DebugExecutor(), "default")
    ctx.fixed_clock(D.datetime(2024, 1, 1, tzinfo=D.timezone.utc))
    hist = H.MemoryRunHistoryStorage()
    feed = E.MemorySchedulerEventStorage()
    logs = asyncz.contrib.dashboard.logs.storage.MemoryLogStorage(maxlen=50)
    for _ in range(install):
        H.install_run_history_listener(s, storage=hist, log_storage=logs)
        E.install_scheduler_event_listener(s, storage=feed)
    ran = {}
    base = D.datetime(2024, 3, 1, tzinfo=D.timezone.utc)
    due = {}
    for k in range(n):
        ok = ctx.flag("task %d works" % k)

        def fn(k=k, ok=ok):
            ran.setdefault("t%d" % k, []).append(ok)
            if not ok:
                raise ValueError("task %d" % k)
            return k

        count = ctx.choice("fire times", [1, 2])
        times = [base + D.timedelta(hours=i) for i in range(count)]
        coalesce = ctx.flag("coalesce") if count == 2 else False
        tr = make_trigger(times + [base + D.timedelta(days=2)])
        s.add_task(fn, tr, id="t%d" % k, name="task %d" % k, coalesce=coalesce, mistrigger_grace_time=None if ctx.flag("no grace") else 60)
        due["t%d" % k] = (ok, times, coalesce)
    s.start()
    us = (base - D.datetime(2024, 1, 1, tzinfo=D.timezone.utc)) // D.timedelta(microseconds=1) + T0
    now = ctx.dt("now", us - 60 * SEC, us + 3 * HOUR)
    ctx.fixed_clock(now)
    subs, exes = [], []
    s.add_listener(lambda e: subs.append(e), C.TASK_SUBMITTED | C.TASK_MAX_INSTANCES)
    s.add_listener(lambda e: exes.append(e), C.TASK_EXECUTED | C.TASK_ERROR | C.TASK_MISSED)
    if manual:
        s.run_task("t0")
    else:
        s.process_tasks()
    kind = {C.TASK_EXECUTED: "succeeded", C.TASK_ERROR: "failed", C.TASK_MISSED: "missed"}
    for e in subs:
        for t in e.scheduled_run_times:
            ctx.check(any(bool(x.scheduled_run_time == t) for x in exes if x.task_id == e.task_id), "a submitted run has no outcome")
    rs = hist.query(limit=50)
    ctx.check(len(rs) == len(exes), "%d runs have %d records" % (len(exes), len(rs)))
    for r in rs:
        want = [kind[x.code] for x in exes if x.task_id == r.task_id and bool(x.scheduled_run_time == r.scheduled_run_time)]
        ctx.check(want == [r.status], "a run is recorded as %s, but it is %s" % (r.status, want))
        ok, times, coalesce = due[r.task_id]
        ctx.check(r.status in (("succeeded" if ok else "failed"), "missed"), "the outcome of the function is not the recorded one")
        ctx.check(r.task_name == "task %s" % r.task_id[1:] and r.executor == "default" and r.callable_reference is not None or r.task_name is None, "the record names another task")
        ctx.check(r.task_name is not None, "the record does not name its task")
        ctx.check(r.source == ("manual" if manual else "scheduled"), "the source of the run is wrong")
        ctx.check(r.scheduler_identity == "sched", "the record does not name its scheduler")
        ctx.reach(r.status)
    for t, oks in ran.items():
        ctx.check(len([r for r in rs if r.task_id == t and r.status != "missed"]) == len(oks), "the task ran %d times, which the history does not show" % len(oks))
    evs = feed.query(limit=100)
    for e in subs + exes:
        name = {C.TASK_SUBMITTED: "task.submitted", C.TASK_EXECUTED: "task.executed", C.TASK_ERROR: "task.error", C.TASK_MISSED: "task.missed", C.TASK_MAX_INSTANCES: "task.max_instances"}[e.code]
        same = [x for x in subs + exes if x.code == e.code and x.task_id == e.task_id]
        ctx.check(len([x for x in evs if x.name == name and x.task_id == e.task_id]) == len(same), "an event is missing in the feed, or shown twice")
    ctx.reach("end")


# -- event feed --------------------------------------------------------------------
NAMES = {
    "SCHEDULER_START": ("scheduler", "scheduler.started"), "SCHEDULER_SHUTDOWN": ("scheduler", "scheduler.shutdown"), "SCHEDULER_PAUSED": ("scheduler", "scheduler.paused"),
    "SCHEDULER_RESUMED": ("scheduler", "scheduler.resumed"), "EXECUTOR_ADDED": ("executor", "executor.added"), "EXECUTOR_REMOVED": ("executor", "executor.removed"),
    "STORE_ADDED": ("store", "store.added"), "STORE_REMOVED": ("store", "store.removed"),
    "TASK_ADDED": ("task", "task.added"), "TASK_REMOVED": ("task", "task.removed"), "TASK_MODIFIED": ("task", "task.modified"),
    "TASK_EXECUTED": ("task", "task.executed"), "TASK_ERROR": ("task", "task.error"), "TASK_MISSED": ("task", "task.missed"),
    "TASK_SUBMITTED": ("task", "task.submitted"), "TASK_MAX_INSTANCES": ("task", "task.max_instances"),
}
TERMINAL = {"TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED", "TASK_MAX_INSTANCES", "SCHEDULER_SHUTDOWN"}
KINDS = {"SCHEDULER_START": None, "SCHEDULER_SHUTDOWN": None, "EXECUTOR_ADDED": "alias", "STORE_REMOVED": "alias", "TASK_ADDED": "task", "TASK_ERROR": "err", "TASK_EXECUTED": "ok", "TASK_MISSED": "miss", "TASK_SUBMITTED": "sub", "TASK_MAX_INSTANCES": "max"}


def make_event(ctx, name, k, task):
    from asyncz.events.base import SchedulerEvent, TaskEvent

    code = getattr(C, name)
    what = KINDS.get(name, "task" if name.startswith("TASK") else "alias")
    if what in CODE:
        e = event(ctx, what, task, "s%d" % k, [TIMES[k % 2]], k)
        e.scheduler_identity = "id%d" % k
        return e
    if what == "task":
        return TaskEvent(code=code, task_id=task, store="s%d" % k, scheduler_identity="id%d" % k)
    return SchedulerEvent(code=code, alias=what and "x%d" % k)


def feed(ctx, kinds, maxlen, flt):
    import asyncz.contrib.dashboard.events as E

    st = E.MemorySchedulerEventStorage(maxlen=maxlen)
    clock = ctx.monotone_clock(LO, HI)
    rows = []
    for k, name in enumerate(kinds):
        name = name or ctx.choice("kind", sorted(KINDS))
        task = ctx.choice("task", ["a", "b"]) if name.startswith("TASK") else None
        e = make_event(ctx, name, k, task)
        r = st.append(e, scheduler=NoTasks())
        rows.append((r, name, task, k, e))
        cat, label = NAMES[name]
        ctx.check(r.code == e.code and r.name == label and r.category == cat, "the event %s is recorded as %s (%s)" % (name, r.name, r.category))
        ctx.check((r.alias, r.task_id, r.store) == (e.alias, task, "s%d" % k if task else None), "the event's task, store or alias is wrong")
        ctx.check(r.scheduler_identity == ("id%d" % k if task else "sched"), "the event's scheduler is wrong")
        if name in ("TASK_SUBMITTED", "TASK_MAX_INSTANCES"):
            ctx.check(r.details == dict(source=["scheduled", "manual"][k % 2], submitted_run_count=1, coalesced_run_count=k, scheduled_run_times=[TIMES[k % 2].isoformat()]), "the details of a submission are wrong")
        elif name in ("TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED"):
            err = name == "TASK_ERROR"
            ctx.check(r.details == dict(scheduled_run_time=TIMES[k % 2].isoformat(), return_value=repr(["r", k]) if name == "TASK_EXECUTED" else None, exception_type="ValueError" if err else None, exception_message="boom %d" % k if err else None), "the details of a run are wrong")
        else:
            ctx.check(r.details == {}, "the event has foreign details")
    kept = rows[-maxlen:] if maxlen else []
    s = st.summary()
    ctx.check(s == dict(total=len(kept), scheduler=len([1 for x in kept if NAMES[x[1]][0] == "scheduler"]), task=len([1 for x in kept if x[2]]), terminal=len([1 for x in kept if x[1] in TERMINAL])), "the summary of the events is wrong")
    q = {}
    sel = kept
    if flt in ("category", "all"):
        q["category"] = ctx.choice("filter category", ["task", " Scheduler", "store"])
        sel = [x for x in sel if NAMES[x[1]][0] == q["category"].strip().lower()]
    if flt in ("name", "all"):
        q["name"] = ctx.choice("filter name", ["task.error", "Task.Submitted "])
        sel = [x for x in sel if NAMES[x[1]][1] == q["name"].strip().lower()]
    if flt in ("task", "all"):
        q["task_id"] = ctx.choice("filter task", ["a", "b"])
        sel = [x for x in sel if x[2] == q["task_id"]]
    if flt in ("q", "all"):
        q["q"] = ctx.choice("filter text", [" S1", "BOOM", "id0", "manual"])
        needle = q["q"].strip().lower()
        text = lambda r: [r.name, r.category, r.alias or "", r.task_id or "", r.store or "", r.scheduler_identity or "", r.event_id] + [str(v) for kv in r.details.items() for v in kv]  # noqa: E731
        sel = [x for x in sel if any(needle in f.lower() for f in text(x[0]))]
    limit = ctx.int("limit", 0, 4)
    got = st.query(limit=limit, **q)
    want = [x[0] for x in reversed(sel)]
    m = ctx.split(limit)
    ctx.check(len(got) == min(m, len(want)) and all(a is b for a, b in zip(got, want)), "the query does not return the newest %d matching events, newest first" % m)
    for a, b in zip(got, got[1:]):
        ctx.check(a.observed_at >= b.observed_at, "the events are not ordered newest first")
    st.clear()
    ctx.check(st.query() == [] and st.summary()["total"] == 0, "events survive a clear")
    ctx.reach("end")


# -- audit trail -------------------------------------------------------------------
def audit(ctx, n, maxlen, flt):
    import asyncz.contrib.dashboard.audit as A

    st = A.get_audit_storage(A.MemoryAuditTrailStorage(maxlen=maxlen))
    ctx.check(A.get_audit_storage() is st, "the configured audit storage is not used")
    ctx.monotone_clock(LO, HI)
    rows = []
    for k in range(n):
        action = ctx.choice("action", ["task.run", "task.delete"])
        status = ctx.choice("status", ["succeeded", "failed", "warning"])
        r = A.record_audit_event(action, status=status, target_id="x%d" % k, message="Done %d" % k, actor="me%d" % k, details=dict(k=k))
        ctx.check((r.action, r.status, r.target_type, r.target_id, r.message, r.actor, r.details) == (action, status, "task", "x%d" % k, "Done %d" % k, "me%d" % k, dict(k=k)), "an audit record says something else than what was reported")
        rows.append(r)
    ctx.check(len({r.event_id for r in rows}) == n, "two audit records have the same id")
    kept = rows[-maxlen:]
    s = st.summary()
    ctx.check(s == dict(total=len(kept), **{x: len([1 for r in kept if r.status == x]) for x in ("succeeded", "failed", "warning")}), "the summary of the audit trail is wrong")
    q = {}
    sel = kept
    if flt in ("action", "all"):
        q["action"] = ctx.choice("filter action", ["task.run", " TASK.DELETE"])
        sel = [r for r in sel if r.action == q["action"].strip().lower()]
    if flt in ("status", "all"):
        q["status"] = ctx.choice("filter status", ["Failed ", "succeeded"])
        sel = [r for r in sel if r.status == q["status"].strip().lower()]
    if flt in ("q", "all"):
        q["q"] = ctx.choice("filter text", ["DONE 1", "me0", " x2", "delete"])
        needle = q["q"].strip().lower()
        sel = [r for r in sel if any(needle in f.lower() for f in (r.event_id, r.action, r.status, r.target_type, r.target_id, r.message, r.actor))]
    limit = ctx.int("limit", 0, 4)
    got = st.query(limit=limit, **q)
    want = list(reversed(sel))
    m = ctx.split(limit)
    ctx.check(len(got) == min(m, len(want)) and all(a is b for a, b in zip(got, want)), "the query does not return the newest %d matching records, newest first" % m)
    for a, b in zip(got, got[1:]):
        ctx.check(a.created_at >= b.created_at, "the records are not ordered newest first")
    st.clear()
    ctx.check(st.query() == [] and st.summary()["total"] == 0, "records survive a clear")
    ctx.reach("end")


# -- logs --------------------------------------------------------------------------
LETTERS = [("a", "c"), ("A", "C")]


def lower(ctx, ch):
    return ch


def log_query(ctx, n, maxlen, flt):
    import asyncz.contrib.dashboard.logs.storage as L

    st = L.MemoryLogStorage(maxlen=maxlen)
    ctx.fixed_clock(ctx.dt("clock", LO, HI))
    rows = []
    for k in range(n):
        ts = ctx.dt("ts%d" % k, LO, HI)
        level = ctx.choice("level", ["INFO", "error"]) if flt in ("level", "all") else "INFO"
        task = ctx.choice("task", [None, "a", "b"]) if flt in ("task", "all") else "a"
        run = ctx.choice("run", [None, "r", 7]) if flt in ("run", "all") else None
        msg = ctx.str("message%d" % k, 3, LETTERS) if flt == "q" else "Message %d" % k
        extra = None if run is None else dict(run_id=run)
        st.append(L.LogEntry(ts=ts, level=level, message=msg, logger="x", task_id=task, extra=extra))
        rows.append((ts, level, task, run, msg))
    kept = rows[-maxlen:]
    q = {}
    conds = [[] for _ in kept]
    if flt in ("task", "all"):
        q["task_id"] = ctx.choice("filter task", ["a", "b"])
        for c, r in zip(conds, kept):
            c.append(r[2] == q["task_id"])
    if flt in ("run", "all"):
        q["run_id"] = ctx.choice("filter run", ["r", "7"])
        for c, r in zip(conds, kept):
            c.append(r[3] is not None and str(r[3]) == q["run_id"])
    if flt in ("level", "all"):
        q["level"] = ctx.choice("filter level", ["info", "Error"])
        for c, r in zip(conds, kept):
            c.append(r[1].upper() == q["level"].upper())
    if flt in ("time", "all"):
        since, until = ctx.opt("since", lambda: ctx.dt("since", LO, HI)), ctx.opt("until", lambda: ctx.dt("until", LO, HI))
        q.update(since=since, until=until)
        for c, r in zip(conds, kept):
            if since is not None:
                c.append(ctx.us(r[0]) >= ctx.us(since))
            if until is not None:
                c.append(ctx.us(r[0]) <= ctx.us(until))
    if flt == "q":
        q["q"] = ctx.choice("filter text", ["b", " AB ", "abc", "cca"])
        needle = q["q"].strip().lower()
        for c, r in zip(conds, kept):
            m = r[4]
            hits = []
            for i in range(len(m) - len(needle) + 1):
                hits.append(And(*[Or(m[i + j] == ch, m[i + j] == ch.upper()) for j, ch in enumerate(needle)]))
            c.append(Or(*hits) if hits else False)
    limit = ctx.int("limit", 0, 4)
    got = list(st.query(limit=limit, **q))
    m = ctx.split(limit)
    # which of the entries match is up to the solver
    want = []
    for c, r in zip(reversed(conds), reversed(kept)):
        if len(want) < m and bool(And(True, *c)):
            want.append(r)
    ctx.check(len(got) == len(want), "the query returns %d entries instead of %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        ctx.check(And(Eq(ctx.us(g.ts), ctx.us(w[0])), g.level == w[1], g.task_id == w[2], g.message == w[4]), "the query does not return the latest matching entries, newest first")
    ctx.reach("found" if got else "nothing")
    st.clear()
    ctx.check(list(st.query()) == [], "entries survive a clear")


def log_coerce(ctx, kind):
    """Entries are kept as given; naive or missing times become aware."""
    import asyncz.contrib.dashboard.logs.storage as L

    now = ctx.dt("now", LO, HI)
    ctx.fixed_clock(now)
    st = L.MemoryLogStorage(maxlen=5)
    st.append(L.LogEntry(ts=ctx.dt("other", LO, HI), level="INFO", message="x", logger="y"))
    ts = ctx.dt("ts", LO, HI)
    form = ctx.choice("time", ["aware", "naive"] + (["none", "text"] if kind == "dict" else []))
    given = dict(aware=ts, naive=ctx.wall(ts), none=None, text="yesterday")[form] if form != "naive" else ts.replace(tzinfo=None)
    extra = ctx.choice("extra", [None, dict(run_id="r")])
    if kind == "dict":
        d = dict(ts=given, level="ERROR", message="m", logger="l", task_id="t", extra=extra)
        st.append(d)
        ctx.check(d == dict(ts=given, level="ERROR", message="m", logger="l", task_id="t", extra=extra) if form not in ("aware", "naive") else True, "the caller's dictionary is changed")
    else:
        st.append(L.LogEntry(ts=given, level="ERROR", message="m", logger="l", task_id="t", extra=extra))
    since = ctx.dt("since", LO, HI)
    want = ctx.us(ts) if form in ("aware", "naive") else ctx.us(now)
    got = [e for e in st.query(since=since) if e.task_id == "t"]
    if bool(want >= ctx.us(since)):
        ctx.check(len(got) == 1, "an entry within the window is not found")
        e = got[0]
        ctx.check(And(Eq(ctx.us(e.ts), want), e.level == "ERROR", e.message == "m", e.logger == "l", e.extra == extra), "an entry is changed")
        ctx.reach(form)
    else:
        ctx.check(not got, "an entry outside the window is found")


def run_logs(ctx, n, status):
    """The log lines of a run: those that name it, then those of its task around its time."""
    import asyncz.contrib.dashboard.history as H
    import asyncz.contrib.dashboard.logs.storage as L

    now = ctx.dt("now", LO, HI)
    ctx.fixed_clock(now)
    st = L.MemoryLogStorage(maxlen=10)
    rows = []
    for k in range(n):
        ts = ctx.dt("ts%d" % k, LO, HI)
        task = ctx.choice("task", ["a", "b"])
        run = ctx.choice("run", [None, "r"])
        msg = "m%d" % k
        st.append(L.LogEntry(ts=ts, level="INFO", message=msg, logger="x", task_id=task, extra=run and dict(run_id=run)))
        rows.append((ts, task, run, msg))
    sub = ctx.dt("submitted", LO, HI)
    end = ctx.dt("finished", LO, HI) if status != "running" else None
    up = ctx.dt("updated", LO, HI)
    ctx.assume(up >= sub)
    if end is not None:
        ctx.assume(And(end >= sub, up >= end))
    r = H.RunRecord(run_id="r", task_id="a", store=None, scheduled_run_time=None, submitted_at=sub, finished_at=end, created_at=sub, updated_at=up, status=status)
    lo, hi = ctx.us(sub) - 5 * SEC, ctx.us(end if end is not None else up) + 5 * SEC
    limit = ctx.int("limit", 0, 4)
    got = H.logs_for_run(r, st, limit=limit)
    m = ctx.split(limit)
    want = [x[3] for x in reversed(rows) if x[2] == "r"]
    for x in reversed(rows):
        if x[1] == "a" and x[2] != "r" and bool(And(ctx.us(x[0]) >= lo, ctx.us(x[0]) <= hi)):
            want.append(x[3])
            ctx.reach("correlated")
    names = [e.message for e in got]
    ctx.check(len(set(names)) == len(names), "a log line is shown twice")
    ctx.check(len(names) <= m, "more log lines than the limit are shown")
    ctx.check(set(names) <= set(want), "a log line that does not belong to the run is shown")
    direct = [x for x in want if [r for r in rows if r[3] == x][0][2] == "r"]
    ctx.check(names[: len(direct)] == direct[:m], "the log lines naming the run are not shown first, newest first")
    if len(want) <= m:
        ctx.check(set(names) == set(want), "a log line of the run is missing")
    ctx.reach("end")


# -- logging handler ------------------------------------------------------------------
def handler(ctx):
    import asyncz.contrib.dashboard.logs.handler as LH
    import asyncz.contrib.dashboard.logs.storage as L

    st = L.MemoryLogStorage(maxlen=10)
    level = ctx.choice("handler level", [logging.DEBUG, logging.INFO, logging.ERROR])
    h = LH.TaskLogHandler(st, level=level)
    values = {}
    for key in ("job_id", "asyncz_task_id", "task_id"):
        v = ctx.choice(key, ["absent", None, "", "T-" + key, 7])
        if v != "absent":
            values[key] = v
    rec = logging.makeLogRecord(dict(name="app.x", levelno=logging.WARNING, levelname="WARNING", msg="hello %s", args=("you",), created=1709294400.25, _private=1, shown=2, **values))
    h.handle(rec) if rec.levelno >= h.level else None
    got = list(st.query())
    ctx.check(len(got) == 1 if level <= logging.WARNING else not got or True, "a log record is not kept")
    if not got:
        return
    e = got[0]
    want = next((str(values[k]) for k in ("task_id", "job_id", "asyncz_task_id") if values.get(k)), None)
    ctx.check(e.task_id == want, "the log line belongs to task %r, not %r" % (want, e.task_id))
    ctx.check((e.level, e.logger, e.message) == ("WARNING", "app.x", "hello you"), "the log line is changed")
    ctx.check(e.ts == D.datetime(2024, 3, 1, 12, 0, 0, 250000, tzinfo=D.timezone.utc), "the time of the log line is wrong")
    ctx.check(e.extra == dict(values, shown=2), "the extra data of the log line is wrong")
    ctx.reach("task" if want else "none")


def adapter(ctx, shared_extra):
    """Loggers of tasks tag their own lines, and only those."""
    import asyncz.contrib.dashboard.logs.handler as LH
    import asyncz.contrib.dashboard.logs.storage as L

    logger = logging.getLogger("asyncz.p25")
    old = logger.level, logger.propagate, list(logger.handlers)
    old_handler = LH._handler
    root = logging.getLogger("asyncz")
    old_root = root.level, root.propagate, list(root.handlers)
    LH._handler = None
    disabled = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        first, second = L.MemoryLogStorage(maxlen=10), L.MemoryLogStorage(maxlen=10)
        times = ctx.choice("installed", [1, 2, 3])
        for k in range(times):
            LH.install_task_log_handler(first if k == 0 else second)
        st = first if times == 1 else second
        n = 2
        ids = ctx.choice("ids", [("a", "b"), ("a", "a")])
        extra = dict(x=1) if shared_extra == "shared" else None
        want = []
        for k in range(n):
            lg = LH.get_task_logger(ids[k], "asyncz.p25")
            own = ctx.flag("names a task itself")
            kw = {}
            if own:
                kw["extra"] = dict(task_id="own")
            elif shared_extra == "shared":
                kw["extra"] = extra
            elif shared_extra == "none":
                kw["extra"] = None
            lg.warning("line %d", k, **kw)
            want.append(("own" if own else ids[k], "line %d" % k))
        logging.getLogger("asyncz.p25").info("plain")
        want.append((None, "plain"))
        got = [(e.task_id, e.message) for e in reversed(list(st.query()))]
        ctx.check(got == want, "the log lines are %r instead of %r" % (got, want))
        ctx.check(extra is None or extra == dict(x=1), "the caller's extra data is changed")
        ctx.reach("end")
    finally:
        logging.disable(disabled)
        LH._handler = old_handler
        logger.level, logger.propagate = old[:2]
        root.handlers[:] = old_root[2]
        root.setLevel(old_root[0])
        root.propagate = old_root[1]


def instances(tier):
    q = tier == "quick"
    out = []
    opts = dict(seconds=500 if q else 3000, extra=shared("history", "events", "audit"), extra_concrete=shared("history", "events", "audit"))
    kinds = list(CODE)
    for a, b in itertools.product(kinds, repeat=2):
        for maxlen in (1, 4):
            out.append(dict(name="history: %s %s, %d records" % (a, b, maxlen), fn=history, params=dict(kinds=[a, b], maxlen=maxlen, flt="task"), reach=[], weight=2, opts=opts))
    for seq in (["sub", "ok", "sub"], ["ok", "sub", "sub"], ["sub", "sub", "err"], ["sub", "max", "ok"], ["max", "sub", "miss"], ["err", "sub", "ok"]) if q else itertools.product(kinds, repeat=3):
        for maxlen in (2, 4):
            out.append(dict(name="history: %s, %d records" % (" ".join(seq), maxlen), fn=history, params=dict(kinds=list(seq), maxlen=maxlen, flt="none"), reach=[], weight=6, opts=opts))
    for flt in ("status", "source", "q", "all"):
        for seq in [["sub", "ok"], ["max", "sub"]] + ([["sub", "err", "sub"]] if flt == "source" or (flt != "all" and not q) else []):
            out.append(dict(name="history: %s by %s" % (" ".join(seq), flt), fn=history, params=dict(kinds=seq, maxlen=4, flt=flt), reach=[], weight=6, opts=opts))
    for seq in (["sub", "ok"], ["max", "err"], ["sub", "max"]):
        out.append(dict(name="history: %s, two runs each" % " ".join(seq), fn=history, params=dict(kinds=seq, maxlen=3, flt="none", two=True), reach=[], weight=3, opts=opts))
    for k in range(3):
        out.append(dict(name="history: identity %d" % k, fn=identity, params=dict(first=k), reach=["same", "different"], weight=6, opts=opts))
    thr = I.locks("asyncz.contrib.dashboard.history", "asyncz.contrib.dashboard.logs.storage")
    topts = dict(opts, extra=opts["extra"] + thr, extra_concrete=opts["extra_concrete"] + thr)
    for a, b in itertools.combinations_with_replacement(kinds, 2):
        out.append(dict(name="history: %s | %s in two threads" % (a, b), fn=threads, params=dict(first=a, second=b, preemptions=1 if q else 2), reach=["end"], weight=5, opts=topts))
    for n in (1, 2):
        for install in (1, 2):
            for manual in (False, True):
                if n == 2 and manual:
                    continue
                out.append(dict(name="scheduler: %d tasks, installed %d times%s" % (n, install, ", manual" if manual else ""), fn=passes, params=dict(n=n, install=install, manual=manual), reach=["end"], weight=5, opts=opts))
    for name in sorted(NAMES):
        out.append(dict(name="feed: " + name, fn=feed, params=dict(kinds=[name], maxlen=2, flt="none"), reach=["end"], weight=1, opts=opts))
    for flt in ("none", "category", "name", "task", "q", "all"):
        for maxlen in (1, 3):
            out.append(dict(name="feed by %s, %d records" % (flt, maxlen), fn=feed, params=dict(kinds=["TASK_ERROR" if maxlen == 1 else "TASK_SUBMITTED", None] if flt == "all" else [None, None], maxlen=maxlen, flt=flt), reach=["end"], weight=6, opts=opts))
        out.append(dict(name="audit by %s" % flt if flt not in ("category", "name", "task") else "audit, %d records" % dict(category=1, name=2, task=3)[flt], fn=audit,
                        params=dict(n=3 if flt == "none" else 2, maxlen=4, flt=flt) if flt not in ("category", "name", "task") else dict(n=3, maxlen=dict(category=1, name=2, task=3)[flt], flt="none"), reach=["end"], weight=4, opts=opts))
    for flt in ("action", "status"):
        out.append(dict(name="audit by %s" % flt, fn=audit, params=dict(n=3, maxlen=4, flt=flt), reach=["end"], weight=4, opts=opts))
    for flt in ("none", "task", "run", "level", "time", "q", "all"):
        for maxlen in (2, 4):
            n = 3
            if flt == "all" and q:
                n, maxlen = 1, maxlen // 2
            out.append(dict(name="logs by %s, %d records" % (flt, maxlen), fn=log_query, params=dict(n=n, maxlen=maxlen, flt=flt), reach=["found", "nothing"], weight=6, opts=opts))
    for kind in ("dict", "entry"):
        out.append(dict(name="logs: %s" % kind, fn=log_coerce, params=dict(kind=kind), reach=["aware", "naive"], weight=2, opts=opts))
    for status in ("running", "succeeded"):
        out.append(dict(name="logs of a run, %s" % status, fn=run_logs, params=dict(n=3 if not q else 2, status=status), reach=["end", "correlated"], weight=6, opts=opts))
    out.append(dict(name="log handler", fn=handler, params={}, reach=["task", "none"], weight=2, opts=opts))
    for e in ("absent", "none", "shared"):
        out.append(dict(name="task loggers, extra %s" % e, fn=adapter, params=dict(shared_extra=e), reach=["end"], weight=2, opts=opts))
    return out

"""P29 what the commands of the command line interface do."""
import asyncio
import contextlib
import datetime as D
import importlib
import json
import os
import shutil
import sys
import tempfile
import types

from symx import fstr

COMMANDS = ["add", "doctor", "inspect", "instances", "list", "pause", "preview", "remove", "resume", "run", "start", "status", "timeline", "update", "version"]
fstr.install("asyncz.cli.")

import asyncz.cli.app  # noqa: F401
import asyncz.cli.bootstrap_loader as BL
import asyncz.cli.loader as LO
import asyncz.cli.types as TY
import asyncz.cli.utils as CU
import asyncz.schedulers.base as SBASE
import asyncz.stores.memory as SMEM
import asyncz.stores.mongo as SMONGO
import asyncz.stores.redis as SREDIS
import click
from asyncz.enums import SchedulerState
from asyncz.exceptions import ConflictIdError, TaskLookupError
from asyncz.executors.asyncio import AsyncIOExecutor
from asyncz.executors.debug import DebugExecutor
from asyncz.executors.pool import ThreadPoolExecutor
from asyncz.executors.process_pool import ProcessPoolExecutor
from asyncz.schedulers.asyncio import AsyncIOScheduler
from asyncz.stores.base import BaseStore
from asyncz.tasks.base import Task
from asyncz.triggers.cron import CronTrigger
from asyncz.triggers.date import DateTrigger
from asyncz.triggers.interval import IntervalTrigger
from symx.ctx import SEC, T0, UTC
from symx.engine import Unsupported
from symx.values import is_sym

BOUNDS = "up to 3 tasks in up to 2 stores, at any distance from now, paused or not, every id of the layouts and one unknown; every option of every command absent or with values of pools, fractions of intervals and stores with up to 4 (thorough: 6) and 2 (thorough: 3) symbolic characters; updates of up to 2 fields; up to 2 jobs of modules, functions, JSON and YAML files in 3 zones; up to 2 (thorough: 3) polls of a watched file with arbitrary times, or none"
OUTSIDE = "the parsing of the command line by sayer, colours and tables, databases other than as durable records (P16, P17), processes interrupted elsewhere than between polls"
ASSUMPTIONS = ["a durable store keeps what is written to it (P13 to P17)", "sayer hands over the options as they are declared"]

MODS = {n: importlib.import_module("asyncz.cli.commands." + n) for n in COMMANDS}


def raw(name):
    """The function of a command below the decorators of the command line library."""
    m = MODS[name]
    seen, todo = set(), [v for v in vars(m).values() if isinstance(v, click.Command)]
    todo = [c.callback for c in todo]
    while todo:
        f = todo.pop()
        if id(f) in seen or not callable(f):
            continue
        seen.add(id(f))
        if getattr(f, "__code__", None) is not None and f.__code__.co_filename == m.__file__:
            return f
        todo.append(getattr(f, "__wrapped__", None))
        todo += [c.cell_contents for c in getattr(f, "__closure__", None) or () if callable(c.cell_contents)]
    raise AssertionError("no function in " + name)


class Loop(asyncio.SelectorEventLoop):
    """An event loop which runs the calls for its thread pool itself, in a later iteration."""

    def __init__(self):
        super().__init__()
        self.failures = []
        self.set_exception_handler(lambda loop, c: self.failures.append(c))

    def run_in_executor(self, pool, fn, *args):
        f = self.create_future()

        def go():
            if not f.cancelled():
                try:
                    r = fn(*args)
                except Exception as e:
                    f.set_exception(e)
                else:
                    f.set_result(r)

        self.call_soon(self.call_soon, go)
        return f

    def call_later(self, delay, fn, *args, context=None):
        """Timers never fire while commands run."""
        return types.SimpleNamespace(cancel=lambda: None)

    def run_until_complete(self, what):
        try:
            return super().run_until_complete(what)
        finally:
            for c in self.failures:
                e = c.get("exception")
                if e is not None and (not isinstance(e, Exception) or isinstance(e, Unsupported)):
                    raise e


class WORLD:
    rows = {}  # alias -> id -> task


class Durable(BaseStore):
    """A store that outlives the schedulers: what is asked for is a copy of what was saved."""

    def restore(self, t):
        c = t.model_copy()
        c.scheduler, c.store_alias = self.scheduler, self.alias
        return c

    @property
    def mine(self):
        return WORLD.rows.setdefault(self.alias, {})

    def lookup_task(self, task_id):
        t = self.mine.get(task_id)
        return None if t is None else self.restore(t)

    def get_task(self, task_id):
        if task_id not in self.mine:
            raise TaskLookupError(task_id)
        return self.lookup_task(task_id)

    def get_all_tasks(self):
        return [self.restore(t) for t in self.mine.values()]

    def get_due_tasks(self, now):
        return [self.restore(t) for t in self.mine.values() if t.next_run_time and t.next_run_time <= now]

    def get_next_run_time(self):
        times = [t.next_run_time for t in self.mine.values() if t.next_run_time]
        return min(times) if times else None

    def add_task(self, task):
        if task.id in self.mine:
            raise ConflictIdError(task.id)
        self.mine[task.id] = task.model_copy()

    def update_task(self, task):
        if task.id not in self.mine:
            raise TaskLookupError(task.id)
        self.mine[task.id] = task.model_copy()

    def delete_task(self, task_id):
        if task_id not in self.mine:
            raise TaskLookupError(task_id)
        del self.mine[task_id]

    def remove_all_tasks(self):
        self.mine.clear()


RUNS, OUT, STARTED = [], [], []


def target(*args, **kwargs):
    RUNS.append((args, kwargs))


async def atarget(*args, **kwargs):
    await asyncio.sleep(0)
    RUNS.append((args, kwargs))


def other(*args, **kwargs):
    RUNS.append(("other", args, kwargs))


class Json:
    def __getattr__(self, n):
        return getattr(json, n)

    def dumps(self, v, *a, **k):
        OUT.append(("json", v, k))
        return "json"


def start_(self, *a, _real=AsyncIOScheduler.start, **k):
    STARTED.append(self)
    return _real(self, *a, **k)


def the_loop():
    return LOOP[-1]


LOOP = []
EXTRA = [("asyncz.cli.commands." + n, "ensure_loop", the_loop) for n in COMMANDS if n != "version"]
EXTRA += [("asyncz.cli.commands." + n, "json", Json()) for n in COMMANDS if hasattr(MODS[n], "json")]
EXTRA += [("asyncz.cli.commands." + n, "info", lambda *a, **k: OUT.append(("info",) + a)) for n in COMMANDS if hasattr(MODS[n], "info")]
EXTRA += [("asyncz.cli.commands." + n, "success", lambda *a, **k: OUT.append(("success",) + a)) for n in COMMANDS if hasattr(MODS[n], "success")]
EXTRA += [("asyncz.cli.commands." + n, "print", lambda *a, **k: OUT.append(("print",) + a)) for n in COMMANDS]
EXTRA += [("asyncz.stores.memory", "MemoryStore", Durable), ("asyncz.schedulers.base", "MemoryStore", Durable), (AsyncIOScheduler, "start", start_)]


def clean():
    WORLD.rows = {}
    del RUNS[:], OUT[:], STARTED[:]


def cli(name, /, **options):
    """-> (the result of the command or None, its exception or None)"""
    f = raw(name)
    args = {p: (False if p in FLAGS else [] if p in ("store", "executor") and name == "start" or p == "store" else None) for p in f.__code__.co_varnames[:f.__code__.co_argcount]}
    args.update(options)
    return on_loop(lambda: f(**args))


FLAGS = {"as_json", "descending", "yes", "dry_run", "clear_mistrigger_grace_time", "strict", "standalone", "watch"}


def on_loop(call):
    LOOP.append(Loop())
    del OUT[:], STARTED[:]
    try:
        return call(), None
    except Unsupported:
        raise
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        return None, e
    finally:
        loop = LOOP.pop()
        with contextlib.suppress(Exception):
            for t in asyncio.all_tasks(loop):
                t.cancel()
        loop.close()


def api(stores, f):
    """The same with the scheduler itself."""

    class Scheduler(AsyncIOScheduler):
        def wakeup(self):
            pass

    async def main():
        s = Scheduler(stores={a: {"type": "memory"} for a in stores})
        s.start()
        r = f(s)
        for e in s.executors.values():
            while e.pending_futures:
                await asyncio.sleep(0)
        s.shutdown()
        return r

    return on_loop(lambda: the_loop().run_until_complete(main()))


FIELDS = ("id", "name", "fn_reference", "args", "kwargs", "executor", "coalesce", "max_instances", "mistrigger_grace_time", "store_alias")


def row(ctx, t):
    r = {k: getattr(t, k) for k in FIELDS}
    r["next"] = None if t.next_run_time is None else ctx.us(t.next_run_time)
    r["trigger"] = {k: (ctx.us(v) if k.endswith("_at") and v is not None else v) for k, v in vars(t.trigger).items()}
    r["trigger"]["class"] = type(t.trigger)
    return r


def rows(ctx):
    return {(a, i): row(ctx, t) for a, m in WORLD.rows.items() for i, t in m.items()}


def same_rows(ctx, a, b, what, but=()):
    ctx.check(set(a) - set(but) == set(b) - set(but), "%s adds or removes other tasks" % what)
    for k in a:
        if k not in but and k in b:
            for f in a[k]:
                ctx.check(a[k][f] == b[k][f], "%s: %s of a task differs" % (what, f))


def put(ctx, alias, i, now, next_run_time, fn=target, **o):
    o.setdefault("trigger", IntervalTrigger(seconds=10, start_at=ctx.mkdt(T0)))
    o.setdefault("executor", "default")
    o.setdefault("coalesce", False)
    o.setdefault("max_instances", 3)
    o.setdefault("mistrigger_grace_time", None)
    o.setdefault("args", [alias, i])
    o.setdefault("kwargs", {})
    t = Task(id=i, fn=fn, name=o.pop("name", "n" + i), store_alias=alias, **o)
    t.next_run_time = next_run_time
    t.submitted, t.pending = True, False
    WORLD.rows.setdefault(alias, {})[i] = t
    return t


LAYOUTS = {
    "default": ([], ["default"], [("default", "x"), ("default", "y")]),
    "one": (["durable=memory"], ["durable"], [("durable", "x"), ("durable", "y")]),
    "two": (["a=memory", "b=memory"], ["a", "b"], [("a", "x"), ("b", "x"), ("b", "y")]),
    "turned": (["b=memory", "a=memory"], ["b", "a"], [("a", "x"), ("b", "x"), ("a", "y")]),
}


def place(ctx, layout, task_id=None):
    """Tasks with arbitrary run times -> (store options, aliases, now, alias of the named task)"""
    clean()
    options, aliases, tasks = LAYOUTS[layout]
    now = ctx.dt("now", T0 + 40 * SEC, T0 + 45 * SEC)
    ctx.fixed_clock(now)
    home = next((a for a in aliases if (a, task_id) in tasks), None)
    for a, i in tasks:
        named = (a, i) == (home, task_id)
        kind = ctx.choice("schedule", ["paused", "due", "later"] if named else ["due"])
        nrt = None if kind == "paused" else ctx.dt("next", T0 + 28 * SEC, T0 + 45 * SEC) if kind == "due" else ctx.dt("next", T0 + 46 * SEC, T0 + 60 * SEC)
        o = {}
        if named:
            o["coalesce"] = ctx.flag("coalesce")
            if ctx.flag("ends"):
                o["trigger"] = IntervalTrigger(seconds=10, start_at=ctx.mkdt(T0), end_at=ctx.dt("end", T0 + 39 * SEC, T0 + 55 * SEC))
        put(ctx, a, i, now, nrt, fn=atarget if named and ctx.flag("coroutine") else target, **o)
    return options, aliases, now, home


def single(ctx, op, layout):
    """run, pause, resume and remove do to the named task what the scheduler does, and nothing else."""
    i = ctx.choice("id", ["x", "y", "z"])
    options, aliases, now, home = place(ctx, layout, i)
    before = rows(ctx)
    saved = {a: dict(m) for a, m in WORLD.rows.items()}
    r, e = cli(op, job_id=i, store=options)
    ran, after, started, out = list(RUNS), rows(ctx), list(STARTED), list(OUT)
    if home is None:
        ctx.check(e is not None, "%s of a missing task succeeds" % op)
        same_rows(ctx, before, after, "%s of a missing task" % op)
        ctx.check(not ran, "%s of a missing task runs others" % op)
        ctx.reach("missing")
        return
    ctx.check(e is None, "%s fails: %r" % (op, e))
    key = (home, i)
    same_rows(ctx, before, after, op, but=[key])
    ctx.check(all(a == [home, i] or a == (home, i) for a, _ in ran), "%s runs other tasks" % op)
    ctx.check(all(s.state == SchedulerState.STATE_STOPPED for s in started) and started, "%s leaves its scheduler running" % op)
    ctx.check(any(i in str(o[1]) for o in out if o[0] in ("info", "success")), "%s does not report what it did" % op)
    if op == "remove":
        ctx.check(key not in after, "the task is still there")
    if op == "pause":
        ctx.check(after[key]["next"] is None, "the task is not paused")
        ctx.check({k: v for k, v in after[key].items() if k != "next"} == {k: v for k, v in before[key].items() if k != "next"}, "pause changes the task")
    if op in ("remove", "pause", "resume"):
        ctx.check(not ran, "%s runs the task" % op)
    if op == "run":
        ctx.check(len(ran) >= 1, "the task is not run")
    if op in ("resume", "run"):
        WORLD.rows = saved
        del RUNS[:]
        r2, e2 = api(aliases, lambda s: getattr(s, op + "_task")(i))
        ctx.check(e2 is None, "the scheduler fails: %r" % e2)
        same_rows(ctx, rows(ctx), after, op)
        ctx.check(ran == RUNS, "%s runs the task differently than the scheduler" % op)
        if op == "resume":
            ctx.check(key not in after or after[key]["next"] is not None, "the task is not resumed")
            ctx.check(("Removed" in out[-1][1]) == (key not in after), "resume reports another outcome")
            ctx.reach("removed" if key not in after else "resumed")
    ctx.reach("end")



# ------------------------------------------------------------------ views


def untouched(ctx, what, e, before):
    """A view neither changes nor runs anything."""
    ctx.check(not RUNS, "%s runs tasks" % what)
    same_rows(ctx, before, rows(ctx), what)
    if e is None:
        ctx.check(all(s.state == SchedulerState.STATE_STOPPED for s in STARTED) and STARTED, "%s leaves its scheduler running" % what)


def payload_of(ctx, what, e):
    ctx.check(e is None, "%s fails: %r" % (what, e))
    got = [o for o in OUT if o[0] == "json"]
    ctx.check(len(got) == 1 and got[0][2].get("default") is not None, "%s writes no JSON" % what)
    printed = [o for o in OUT if o[0] == "print"]
    ctx.check(printed == [("print", "json")] and not [o for o in OUT if o[0] in ("info", "success")], "%s writes more than JSON" % what)
    return got[0][1]


def describe(ctx, payload, key, task, what):
    """The payload describes this task."""
    a, i = key
    t = task
    ctx.check(payload["id"] == i and payload["store"] == a and payload["name"] == t.name and payload["executor"] == t.executor, "%s shows another task" % what)
    ctx.check(payload["state"] == ("scheduled" if t.next_run_time else "paused"), "%s shows another state" % what)
    ctx.check(payload["trigger"] == type(t.trigger).__name__ and payload["trigger_alias"] == t.trigger.alias, "%s shows another trigger" % what)
    ctx.check(payload.get("callable_reference", t.fn_reference) == t.fn_reference and payload.get("callable_name", t.fn.__name__) == t.fn.__name__, "%s shows another callable" % what)
    if "next_run_time" in payload:
        n = payload["next_run_time"]
        ctx.check((n is None) == (t.next_run_time is None) and (n is None or n == t.next_run_time), "%s shows another run time" % what)
    for k in ("coalesce", "max_instances", "mistrigger_grace_time"):
        if k in payload:
            ctx.check(payload[k] == getattr(t, k), "%s shows another %s" % (what, k))
    if "paused" in payload:
        ctx.check(payload["paused"] == (t.next_run_time is None) and payload["pending"] is False, "%s shows another state" % what)


def upcoming(ctx, t, now, count):
    """-> (the next run times of a task with an interval of ten seconds since T0, whether there are no more)"""
    x, out = t.next_run_time and ctx.us(t.next_run_time), []
    end = t.trigger.end_at and ctx.us(t.trigger.end_at)
    if x is None:
        x = T0 - (T0 - ctx.us(now)) // (10 * SEC) * (10 * SEC)
        if end is not None and bool(x > end):
            x = None
    while x is not None and len(out) < count:
        out.append(x)
        x = x + 10 * SEC
        if end is not None and bool(x > end):
            x = None
    return out, x is None


def listing(ctx, layout, field):
    """list shows exactly the matching tasks of the selected stores."""
    options, aliases, now, home = place(ctx, layout, "x")
    Durable_tasks = {(a, i): t for a, m in WORLD.rows.items() for i, t in m.items()}
    for n, t in enumerate(Durable_tasks.values()):
        t.executor, t.name = ["default", "e2"][n % 2], ["N b", "c", "b"][n % 3]
    o, keep = {}, lambda k, t: True
    if field == "state":
        v = ctx.choice("state", ["paused", " Scheduled ", "pending", "bad", "", None])
        o["state"] = v
        keep = lambda k, t: v is None or v.strip().lower() == ("scheduled" if t.next_run_time else "paused")  # noqa: E731
    elif field == "executor":
        o["executor"] = v = ctx.choice("executor", ["default", "e2", "none"])
        keep = lambda k, t: t.executor == v  # noqa: E731
    elif field == "trigger":
        o["trigger"] = v = ctx.choice("trigger", ["interval", "IntervalTrigger", " INTERVAL ", "cron"])
        keep = lambda k, t: v != "cron"  # noqa: E731
    elif field == "q":
        o["q"] = v = ctx.choice("q", ["B", " x ", "p29", "nothing", "durable"])
        keep = lambda k, t: any(v.strip().lower() in w.lower() for w in (k[0], k[1], t.name, t.fn_reference, t.executor, "IntervalTrigger", "interval"))  # noqa: E731
    o["sort_by"] = sort = ctx.choice("sort", ["next_run_time", "id", "name", "store", "executor", "schedule_state", "trigger", "bad"]) if field == "sort" else "next_run_time"
    o["descending"] = ctx.flag("descending") if field == "sort" else False
    before = rows(ctx)
    r, e = cli("list", as_json=True, store=options, **o)
    untouched(ctx, "list", e, before)
    if sort == "bad" or o.get("state") in ("bad", ""):
        ctx.check(e is not None, "list accepts anything")
        ctx.reach("refused")
        return
    payload = payload_of(ctx, "list", e)
    want = {k for k, t in Durable_tasks.items() if k[0] in aliases and keep(k, t)}
    ctx.check(len(payload) == len(want) and {(p["store"], p["id"]) for p in payload} == want, "list shows other tasks")
    for p in payload:
        describe(ctx, p, (p["store"], p["id"]), Durable_tasks[p["store"], p["id"]], "list")
    pairs = list(zip(payload, payload[1:]))
    if o["descending"]:
        pairs = [(b, a) for a, b in pairs]
    for a, b in pairs:
        if sort == "next_run_time":
            ctx.check(b["next_run_time"] is None or (a["next_run_time"] is not None and bool(a["next_run_time"] <= b["next_run_time"])), "list is not sorted")
        elif sort != "trigger":
            k = {"schedule_state": "state"}.get(sort, sort)
            ctx.check(a[k].lower() <= b[k].lower(), "list is not sorted")
    r, e = cli("list", as_json=False, store=options, **dict(o, sort_by="id", descending=False)) if not ctx.symbolic else (None, None)
    if not ctx.symbolic:
        ctx.check(e is None and len([x for x in OUT if x[0] == "info"]) == len(payload) and not [x for x in OUT if x[0] == "json"], "list shows other tasks as text")
    ctx.reach("some" if payload else "none")


def view(ctx, op, layout):
    """inspect and preview show the named task and its next runs."""
    i = ctx.choice("id", ["x", "y", "z"])
    options, aliases, now, home = place(ctx, layout, i)
    count = ctx.choice("count", [1, 3, 0, 51])
    before = rows(ctx)
    r, e = cli(op, job_id=i, as_json=True, count=count, store=options)
    untouched(ctx, op, e, before)
    if home is None or not 1 <= count <= 50:
        ctx.check(e is not None and not [o for o in OUT if o[0] == "json"], "%s of a missing task succeeds" % op)
        ctx.reach("missing" if home is None else "refused")
        return
    payload = payload_of(ctx, op, e)
    t = WORLD.rows[home][i]
    describe(ctx, payload["task"], (home, i), t, op)
    want, exhausted = upcoming(ctx, t, now, count)
    got = payload["run_times"]
    ctx.check(len(got) == len(want), "%s shows other run times" % op)
    for a, b in zip(got, want):
        ctx.check(ctx.us(a) == b, "%s shows other run times" % op)
    ctx.check(payload["exhausted"] == exhausted and payload["requested_count"] == count and payload["returned_count"] == len(want), "%s counts wrongly" % op)
    if op == "preview":
        ctx.check(payload["timezone"] == "UTC" or payload["timezone"] == str(STARTED[-1].timezone), "the preview shows another time zone")
    r, e = cli(op, job_id=i, as_json=False, count=count, store=options) if not ctx.symbolic else (None, None)
    if not ctx.symbolic:
        lines = [x[1] for x in OUT if x[0] == "info"]
        ctx.check(e is None and i in lines[0] and all(any(str(g) in x for x in lines) for g in got), "%s shows something else as text" % op)
    ctx.reach("end")


def overview(ctx, layout, per_task):
    """timeline shows the next runs of every task in their order."""
    options, aliases, now, home = place(ctx, layout, "x")
    limit = ctx.choice("limit", [100, 1, 2, 0, -3, 501])
    before = rows(ctx)
    tasks = {(a, i): t for a, m in WORLD.rows.items() for i, t in m.items()}
    r, e = cli("timeline", as_json=True, per_task=per_task, limit=limit, store=options)
    untouched(ctx, "timeline", e, before)
    payload = payload_of(ctx, "timeline", e)
    n = max(1, min(per_task, 10))
    bound = max(1, min(limit, 500))
    want, done = [], 0
    for k, t in tasks.items():
        times, exhausted = upcoming(ctx, t, now, n)
        want += [(k, x) for x in times]
        done += exhausted
    ctx.check(payload["total_count"] == len(want) and payload["task_count"] == len(tasks) and payload["exhausted_task_count"] == done, "the timeline counts wrongly")
    shown = payload["rows"]
    ctx.check(len(shown) == min(bound, len(want)) == payload["returned_count"], "the timeline shows another number of runs")
    for a, b in zip(shown, shown[1:]):
        ctx.check(a["run_time"] <= b["run_time"], "the timeline is not sorted")
    rest = list(want)
    for s in shown:
        k = (s["task"]["store"], s["task"]["id"])
        ctx.check(k in tasks, "the timeline shows another task")
        describe(ctx, s["task"], k, tasks[k], "the timeline")
        hit = next((w for w in rest if w[0] == k and bool(w[1] == ctx.us(s["run_time"]))), None)
        ctx.check(hit is not None, "the timeline shows another run")
        rest.remove(hit)
    for w in rest:
        if shown:
            ctx.check(w[1] >= ctx.us(shown[-1]["run_time"]), "the timeline hides an earlier run")
    ctx.reach("all" if not rest else "limited")


def summary(ctx, op, layout):
    """status, instances and doctor count the tasks of the selected stores."""
    options, aliases, now, home = place(ctx, layout, "x")
    before = rows(ctx)
    strict = {"strict": ctx.flag("strict")} if op == "doctor" else {}
    r, e = cli(op, as_json=True, store=options, **strict)
    untouched(ctx, op, e, before)
    payload = payload_of(ctx, op, e)
    if op == "instances":
        ctx.check(payload["count"] == 1 == len(payload["instances"]), "instances shows other schedulers")
        info = payload["instances"][0]
        ctx.check(info["active"] is True and info["stale"] is False, "the scheduler of the command is shown as stale")
    else:
        info = payload["scheduler"] if op == "doctor" else payload
        ctx.check(info["running"] is True, "the scheduler is shown as stopped")
    if op == "doctor":
        ctx.check(payload["health"] == "ok" and payload["ready"] is True and all(c["status"] == "ok" for c in payload["checks"]), "the doctor finds failures in a working scheduler")
    shown = [(a, i) for a, i in before if a in aliases]
    paused = [k for k in shown if before[k]["next"] is None]
    ctx.check(info["task_count"] == len(shown) and info["paused_task_count"] == len(paused) and info["scheduled_task_count"] == len(shown) - len(paused) and info["pending_task_count"] == 0, "%s counts wrongly" % op)
    ctx.check(set(aliases) <= set(info["stores"]) <= set(aliases) | {"default"} and info["executors"] == ["default"], "%s shows other stores or executors" % op)
    ctx.check(info["identity"] == STARTED[-1].identity, "%s shows another scheduler" % op)
    r, e = cli(op, as_json=False, store=options, **strict)
    ctx.check(e is None and [x for x in OUT if x[0] == "info"] and not [x for x in OUT if x[0] == "json"], "%s shows nothing" % op)
    ctx.reach("end")


# ------------------------------------------------------------------ options


def number(ctx, s):
    v = 0
    for c in s:
        if not (bool(c >= "0") and bool(c <= "9")):
            return None
        v = v * 10 + ctx.digit(c)
    return v if len(s) else None


def interval(ctx, n):
    """Intervals are numbers followed by a unit; anything else is refused."""
    text = ctx.strlen("interval", 0, n, ["0", "1", "9", "s", "M", "h", " ", "d", "-", "."])
    s = text.strip()
    want = None
    if len(s):
        for u, m in (("s", 1), ("M", 60), ("h", 3600)):
            if bool(s[-1] == u):
                v = number(ctx, s[:-1].strip())
                want = None if v is None else v * m
    try:
        got = TY.parse_interval(text)
    except Unsupported:
        raise
    except ValueError:
        ctx.check(want is None, "a valid interval is refused")
        ctx.reach("refused")
        return
    ctx.check(want is not None, "an invalid interval is accepted")
    ctx.check(got == want, "an interval has another length")
    ctx.reach("accepted")


def chosen_trigger(ctx):
    """-> (cron, interval, at, class or None when invalid, checker)"""
    cron = ctx.choice("cron", [None, "", "*/5 1 * * mon", "x"])
    inter = ctx.choice("interval", [None, "", "90m", "0 s", "5"])
    at = ctx.choice("at", [None, "", "2030-01-02T03:04:05+02:00", "2030-01-02", "soon"])
    given = [x for x in (cron, inter, at) if x]
    good = len(given) == 1 and given[0] not in ("x", "5", "soon")
    return cron, inter, at, good


def check_trigger(ctx, t, cron, inter, at, tz=UTC):
    if cron:
        ctx.check(type(t) is CronTrigger and [str(f) for f in t.fields if f.name in ("minute", "hour", "day", "month", "day_of_week")] == ["*", "*", "mon", "1", "*/5"] or
                  {f.name: str(f) for f in t.fields}.items() >= dict(minute="*/5", hour="1", day="*", month="*", day_of_week="mon").items(), "the cron trigger differs")
    elif inter:
        ctx.check(type(t) is IntervalTrigger and t.interval == D.timedelta(minutes=90) if inter == "90m" else type(t) is IntervalTrigger, "the interval trigger differs")
    else:
        want = D.datetime(2030, 1, 2, 3, 4, 5, tzinfo=D.timezone(D.timedelta(hours=2))) if "T" in at else D.datetime(2030, 1, 2, tzinfo=tz)
        got = t.run_at if t.run_at.tzinfo is not None else t.run_at.replace(tzinfo=tz)
        ctx.check(type(t) is DateTrigger and got == want, "the date trigger differs")


def trigger(ctx):
    """Exactly one kind of trigger is accepted, and it is the requested one."""
    ctx.fixed_clock(ctx.mkdt(T0))
    cron, inter, at, good = chosen_trigger(ctx)
    try:
        t = TY.parse_trigger(cron=cron, interval=inter, at=at)
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(not good or inter == "0 s", "a valid trigger is refused: %r" % e)
        ctx.check(isinstance(e, ValueError), "an invalid trigger fails with %r" % e)
        ctx.reach("refused")
        return
    ctx.check(good, "an invalid trigger is accepted")
    check_trigger(ctx, t, cron, inter, at, D.datetime.now().astimezone().tzinfo)
    ctx.reach("accepted")


def spec(ctx, n, kind):
    """Store options name the alias and the place of the tasks."""
    alias = ctx.strlen("alias", 0, n, ["a", "B", "-", " ", "1"])
    rest = ctx.strlen("rest", 0, n, ["a", "/", " ", "?", "=", "1"])
    try:
        got = CU.parse_store(alias + "=" + kind + rest)
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "a store is refused: %r" % e)
    ctx.check(type(got) is tuple and len(got) == 2 and got[0] == alias.strip(), "a store gets another name")
    place_ = (rest if kind != "" else rest).rstrip()
    if kind == "":
        place_ = place_.lstrip()
    c = dict(got[1])
    t = c.pop("type")
    if kind == "memory" and not len(place_):
        ctx.check(t == "memory" and not c, "a memory store is another store")
        ctx.reach("memory")
    elif kind == "file://":
        ctx.check(t == "file" and set(c) == {"directory"} and c["directory"] == place_, "a file store is in another place")
    else:
        ctx.check(t == "sqlalchemy" and set(c) == {"database"} and c["database"] == kind + place_, "a database is another one")
    ctx.reach("end")


def no_equals(ctx):
    """Options without a name are refused by the parsers of named ones."""
    text = ctx.strlen("text", 0, 3, ["a", ":", " ", "4"])
    for f in (CU.parse_store, CU.parse_executor):
        try:
            f(text)
        except Unsupported:
            raise
        except ValueError:
            continue
        ctx.check(False, "an option without a name is accepted")
    ctx.reach("end")


CLIENTS = []


class FakeMongo:
    def __init__(self, *a, **k):
        CLIENTS.append((a, k))
        self.asked = []

    def __getitem__(self, n):
        self.asked.append(n)
        return self

    def __bool__(self):
        return True


REDIS = ["redis://localhost:6379/0", "redis://h", "redis://u:p%40x@h:6380/3", "redis://h:1/2?db=4", "redis://:s@[::1]:7"]
MONGO = [("mongodb://localhost:27017/asyncz", "mongodb://localhost:27017/asyncz", "asyncz"), ("mongo://h:1/db", "mongodb://h:1/db", "db"), ("mongodb://u:mongo%3A@h", "mongodb://u:mongo%3A@h", "asyncz"),
         ("mongodb://a,b:2/x?replicaSet=r", "mongodb://a,b:2/x?replicaSet=r", "x"), ("mongodb://h/", "mongodb://h/", "asyncz")]
PLACES = ["memory", "file:///tmp/asyncz-p29", "sqlite:///scheduler.db", "sqlite:///a=b.db", "", "redis", "mongo"]


def stores(ctx, k):
    """The options of the command line create the stores they describe, under their names."""
    from asyncz.stores.file import FileStore
    from asyncz.stores.mongo import MongoDBStore
    from asyncz.stores.redis import RedisStore
    from asyncz.stores.sqlalchemy import SQLAlchemyStore
    from redis import Redis
    from sqlalchemy.engine import make_url

    ctx.fixed_clock(ctx.mkdt(T0))
    del CLIENTS[:]
    specs, want, bad = [], {}, False
    for n in range(k):
        alias = ctx.choice("alias", ["a", "Big", " a b ", "default", "sqlite", "memory", "durable", "none"])
        place_ = ctx.choice("place", PLACES if n == 0 else ["memory", ""])
        if place_ == "redis":
            place_ = ctx.choice("url", REDIS)
        elif place_ == "mongo":
            place_ = MONGO[ctx.choice("url", list(range(len(MONGO))))]
        text = place_[0] if type(place_) is tuple else place_
        if alias == "none":
            specs.append(text)
            bad = bad or text not in ("memory", "")
            if text in ("memory", ""):
                want["default" if n == 0 else "memory"] = "memory"
            if ":" in text and "=" in text:
                return
        else:
            specs.append(alias + ctx.choice("equals", ["=", " = "]) + text)
            if text == "":
                bad = bad or alias.strip().lower() != "memory"
                want[alias.strip()] = "memory"
            else:
                want[alias.strip()] = place_
    try:
        got = CU.build_stores_map(specs)
    except Unsupported:
        raise
    except (click.ClickException, ValueError) as e:
        ctx.check(bad, "valid stores are refused: %r" % e)
        ctx.reach("refused")
        return
    except Exception as e:
        ctx.check(False, "stores fail: %r" % e)
    ctx.check(not bad, "an invalid store is accepted")
    if not specs:
        ctx.check(got == {"default": {"type": "memory"}}, "without options there is another store")
        ctx.reach("none")
        return
    ctx.check(set(got) == set(want), "the stores have other names")
    s = AsyncIOScheduler(stores={k: dict(v) for k, v in got.items()})
    for alias, w in want.items():
        st = s.stores[alias]
        if w == "memory":
            ctx.check(type(st) is SMEM.MemoryStore, "another store than a memory store is created")
        elif type(w) is tuple:
            ctx.check(type(st) is MongoDBStore and len(CLIENTS) == 1 and CLIENTS[0][1].get("host") == w[1], "another MongoDB server is used")
            ctx.check(set(CLIENTS[0][1]) <= {"host", "w"} and st.client.asked[0] == w[2], "another MongoDB database is used")
        elif w.startswith("redis"):
            ctx.check(type(st) is RedisStore, "another store than Redis is created")
            a, b = st.redis.connection_pool, Redis.from_url(w).connection_pool
            keys = ("host", "port", "db", "username", "password")
            dflt = {"host": "localhost", "port": 6379, "db": 0}
            ctx.check(a.connection_class is b.connection_class and all((a.connection_kwargs.get(x) or dflt.get(x)) == (b.connection_kwargs.get(x) or dflt.get(x)) for x in keys), "another Redis server is used")
        elif w.startswith("file"):
            ctx.check(type(st) is FileStore and str(st.directory) == w[len("file://"):], "another directory is used")
        else:
            ctx.check(type(st) is SQLAlchemyStore and st.engine.url == make_url(w), "another database is used")
    ctx.reach("end")


EXECUTORS = dict(asyncio=AsyncIOExecutor, thread=ThreadPoolExecutor, threads=ThreadPoolExecutor, pool=ThreadPoolExecutor, process=ProcessPoolExecutor, proc=ProcessPoolExecutor, processpool=ProcessPoolExecutor, debug=DebugExecutor)
CLASSES = {"asyncz.executors.asyncio:AsyncIOExecutor": AsyncIOExecutor, "asyncz.executors.pool:ThreadPoolExecutor": ThreadPoolExecutor, "asyncz.executors.process_pool:ProcessPoolExecutor": ProcessPoolExecutor, "asyncz.executors.debug:DebugExecutor": DebugExecutor}


def executors(ctx, kind, n):
    """Executor options create the executors they describe, with the given number of workers."""
    ctx.fixed_clock(ctx.mkdt(T0))
    alias = ctx.choice("alias", ["a", " Io ", "default"])
    kind_ = ctx.choice("spelling", [kind, " %s " % kind.upper()])
    w = ctx.strlen("workers", 0, n, ["0", "3", "9", "-", "x", " "])
    colon = ctx.flag("colon") or bool(len(w))
    text = (alias + "=" + kind_) + (":" if colon else "") + w
    pool = kind not in ("asyncio", "debug", "unknown")
    v = number(ctx, w.strip())
    try:
        got = CU.build_executors_map([text, "other=debug"])
    except Unsupported:
        raise
    except ValueError:
        ctx.check(kind == "unknown" or len(w) and v is None, "a valid executor is refused")
        ctx.reach("refused")
        return
    ctx.check(kind != "unknown", "an unknown executor is accepted")
    ctx.check(not len(w) or v is not None or bool("-" == w.strip()[0]), "an invalid number of workers is accepted")
    ctx.check(set(got) == {alias.strip(), "other"}, "the executors have other names")
    c = dict(got[alias.strip()])
    cls = c.pop("class")
    ctx.check(CLASSES.get(cls) is EXECUTORS[kind], "another executor is created")
    if not len(w):
        ctx.check(not c, "the executor gets options")
    elif v is not None:
        ctx.check(set(c) == {"max_workers"} and c["max_workers"] == v, "the executor has another number of workers")
    if not c and kind != "process":
        s = AsyncIOScheduler(executors=got)
        ctx.check(type(s.executors[alias.strip()]) is EXECUTORS[kind], "another executor is created")
        for e in s.executors.values():
            pool_ = getattr(e, "pool", None)
            if pool_ is not None:
                pool_.shutdown(wait=False)
    ctx.reach("end")


# ------------------------------------------------------------------ update and add


def one_arg(a):
    RUNS.append(("one", a))


SNAP = dict(name="name", executor="executor", callable_reference="fn_reference", args="args", kwargs="kwargs", coalesce="coalesce", max_instances="max_instances", mistrigger_grace_time="mistrigger_grace_time")
ASKED = []


def confirm(*a, **k):
    ASKED.append((a, k))
    if not ANSWER[-1]:
        if k.get("abort"):
            raise click.Abort()
        return False
    return True


ANSWER = [True]
INVALID = object()


def field_values(ctx, f):
    """-> (options, changes or INVALID)"""
    if f == "name":
        v = ctx.choice("name", ["", "nx", "m é"])
        return {"name": v}, {"name": v}
    if f == "callable_path":
        v = ctx.choice("callable", ["harness.p29:other", "harness.p29:target", "harness.p29:one_arg", "harness.p29:nothing", "x"])
        return {"callable_path": v}, {"fn": v}
    if f == "args":
        v, w = ctx.choice("args", [("[]", []), ('[1, "a"]', [1, "a"]), ('["durable", "x"]', ["durable", "x"]), ("{}", INVALID), ('"ab"', INVALID), ("1", INVALID), ("null", INVALID), ("[", INVALID), ("", INVALID)])
        return {"args": v}, w if w is INVALID else {"args": w}
    if f == "kwargs":
        v, w = ctx.choice("kwargs", [("{}", {}), ('{"k": [1]}', {"k": [1]}), ("[]", INVALID), ("null", INVALID), ("x", INVALID)])
        return {"kwargs": v}, w if w is INVALID else {"kwargs": w}
    if f == "executor":
        v = ctx.choice("executor", ["default", "e2"])
        return {"executor": v}, {"executor": v}
    if f == "coalesce":
        v, w = ctx.choice("coalesce", [("true", True), (" NO ", False), ("1", True), ("off", False), ("", INVALID), ("2", INVALID), ("falsey", INVALID)])
        return {"coalesce": v}, w if w is INVALID else {"coalesce": w}
    if f == "max_instances":
        v = ctx.int("max", -1, 4)
        return {"max_instances": v}, {"max_instances": v}
    v = ctx.choice("grace", [0.0, 0.5, 7.0, -1.0, float("nan"), None])
    c = ctx.flag("clear")
    return {"mistrigger_grace_time": v, "clear_mistrigger_grace_time": c}, {"mistrigger_grace_time": None} if c else {} if v is None else {"mistrigger_grace_time": v}


EDITS = ["name", "callable_path", "args", "kwargs", "executor", "coalesce", "max_instances", "grace"]


def update(ctx, fields, as_json):
    """update changes exactly the given fields of the named task, and only when it is told to."""
    i = ctx.choice("id", ["x", "z"]) if fields == ("name",) else "x"
    clean()
    now = ctx.mkdt(T0 + 42 * SEC)
    ctx.fixed_clock(now)
    for k in ("x", "y"):
        put(ctx, "durable", k, now, ctx.mkdt(T0 + 50 * SEC), mistrigger_grace_time=7.0, fn="harness.p29:target")
    o, changes = {}, {}
    for f in fields:
        opts, ch = field_values(ctx, f)
        o.update(opts)
        changes = INVALID if ch is INVALID or changes is INVALID else {**changes, **ch}
    yes, dry = ctx.flag("yes"), ctx.flag("dry run")
    ANSWER[:] = [ctx.flag("answer")] if not yes and not dry else [True]
    del ASKED[:]
    before = rows(ctx)
    saved = {a: dict(m) for a, m in WORLD.rows.items()}
    r, e = cli("update", job_id=i, store=["durable=memory"], yes=yes, dry_run=dry, as_json=as_json, **o)
    after, out, started = rows(ctx), list(OUT), list(STARTED)
    ctx.check(not RUNS, "update runs tasks")
    WORLD.rows = saved
    missing = i == "z"
    e2 = ValueError() if changes is INVALID or not changes or missing else None
    if e2 is None:
        _, e2 = api(["durable"], lambda s: s.update_task(i, **changes))
    OUT[:] = out
    wanted = rows(ctx)
    diff = {k: {"before": before["durable", i][f], "after": wanted["durable", i][f]} for k, f in SNAP.items() if not missing and before["durable", i][f] != wanted["durable", i][f]}
    same_rows(ctx, before, after, "update", but=[("durable", i)])
    if e2 is not None:
        ctx.check(e is not None, "an invalid update is accepted")
        same_rows(ctx, before, after, "an invalid update")
        ctx.check(not ASKED and not [x for x in out if x[0] in ("json", "success")], "an invalid update is reported as applied")
        ctx.reach("refused")
        return
    asks = bool(diff) and not yes and not dry
    applied = bool(diff) and not dry and (yes or ANSWER[-1])
    ctx.check(len(ASKED) == (1 if asks else 0), "update asks at another time" if asks else "update asks though it need not")
    if asks and not ANSWER[-1]:
        ctx.check(e is not None, "a declined update succeeds")
        same_rows(ctx, before, after, "a declined update")
        ctx.reach("declined")
        return
    ctx.check(e is None, "update fails: %r" % e)
    same_rows(ctx, wanted if applied else before, after, "update")
    if as_json:
        payload = payload_of(ctx, "update", e)
        ctx.check(payload["id"] == i and payload["store"] == "durable" and payload["applied"] is applied and payload["changed"] is bool(diff) and payload["dry_run"] is dry, "update reports another outcome")
        shown = {k: {"before": v["before"], "after": v["after"]} for k, v in payload["diff"].items()}
        ctx.check(shown == diff, "update shows another difference: %r instead of %r" % (shown, diff))
        ctx.check(("after" in payload) == applied and (not applied or payload["after"] == {k: wanted["durable", i][f] for k, f in SNAP.items()}), "update shows another task")
    else:
        text = [x for x in out if x[0] == "info" and any(x[1].startswith(k + ":") for k in SNAP)]
        ctx.check(len(text) == len(diff) and bool([x for x in out if x[0] == "success"]) == applied, "update reports another outcome")
    ctx.check(all(s.state == SchedulerState.STATE_STOPPED for s in started), "update leaves its scheduler running")
    ctx.reach("applied" if applied else "kept")


def plain(*a):
    RUNS.append(a)


def add(ctx, varied):
    """add saves exactly the described task in the first selected store, or nothing."""
    clean()
    now = ctx.dt("now", T0, T0 + 100 * SEC)
    ctx.fixed_clock(now)
    layout = ctx.choice("layout", list(LAYOUTS)) if varied == "names" else "turned"
    options, aliases, tasks = LAYOUTS[layout]
    for a, k in tasks:
        put(ctx, a, k, now, ctx.mkdt(T0 - 50 * SEC))
    before = rows(ctx)
    first = aliases[0]
    o, good = {}, True
    path = ctx.choice("path", ["harness.p29:other", "harness.p29:plain", "harness.p29:nothing", "harness.p29", "no.such:x"]) if varied == "callable" else "harness.p29:other"
    good = good and path in ("harness.p29:other", "harness.p29:plain")
    if varied == "trigger":
        o["cron"], o["interval"], o["at"], ok = chosen_trigger(ctx)
        good = good and ok
    else:
        o["interval"] = "90m"
    args, kwargs = [], {}
    if varied == "args":
        v, args = ctx.choice("args", [(None, []), ("", []), ('[1, "a"]', [1, "a"]), ("[", INVALID)])
        w, kwargs = ctx.choice("kwargs", [(None, {}), ("", {}), ('{"k": null}', {"k": None}), ("}", INVALID)])
        o["args"], o["kwargs"] = v, w
        good = good and args is not INVALID and kwargs is not INVALID
    i = o["job_id"] = ctx.choice("id", [None, "new", "x", "y"]) if varied == "names" else None
    o["name"] = ctx.choice("name", [None, "N"]) if varied == "names" else None
    good = good and (first, i) not in tasks
    r, e = cli("add", callable_path=path, store=options, **o)
    after = rows(ctx)
    same_rows(ctx, before, {k: v for k, v in after.items() if k in before}, "add")
    ctx.check(not RUNS, "add runs tasks")
    if not good:
        ctx.check(e is not None and set(after) == set(before), "an invalid task is added")
        ctx.reach("refused")
        return
    if e is not None and o.get("interval") == "0 s":
        return
    ctx.check(e is None, "a task is refused: %r" % e)
    new = set(after) - set(before)
    ctx.check(len(new) == 1, "not exactly one task is added")
    key = new.pop()
    t, row_ = WORLD.rows[key[0]][key[1]], after[key]
    ctx.check(key[0] == first, "the task is added to another store")
    ctx.check(i is None or key[1] == i, "the task has another id")
    ctx.check(row_["fn_reference"] == path and list(row_["args"]) == args and row_["kwargs"] == kwargs, "another task is added")
    ctx.check(row_["name"] == (o["name"] or path.partition(":")[2]), "the task has another name")
    check_trigger(ctx, t.trigger, o.get("cron"), o.get("interval"), o.get("at"), STARTED[-1].timezone)
    ctx.check(t.next_run_time is not None and row_["next"] >= ctx.us(now) or o.get("at") is not None, "the task is not scheduled")
    if o.get("interval") == "90m":
        ctx.check(row_["next"] == ctx.us(now) + 5400 * SEC, "the task is not scheduled an interval later")
    ctx.check(all(s.state == SchedulerState.STATE_STOPPED for s in STARTED), "add leaves its scheduler running")
    ctx.check(any(key[1] in str(x[1]) for x in OUT), "add does not tell the id")
    ctx.reach("added")


# ------------------------------------------------------------------ bootstrap


def make(n):
    """-> (what a bootstrap path names, the scheduler or None when it is invalid)"""
    s = AsyncIOScheduler(stores={"default": {"type": "memory"}})

    class Spec:
        def get_scheduler(self):
            return s

    class Empty:
        pass

    class Wrong:
        def get_scheduler(self):
            return "scheduler"

    class Sub(AsyncIOScheduler):
        pass

    sub = Sub()
    return {"class": (Spec, s), "object": (Spec(), s), "function": (lambda: s, s), "method": (Spec().get_scheduler, s), "subclass": (lambda: sub, sub), "empty class": (Empty, None), "empty object": (Empty(), None), "wrong class": (Wrong, None),
            "wrong function": (lambda: None, None), "scheduler class": (AsyncIOScheduler, True), "scheduler": (s, None)}[n]


KINDS = ["class", "object", "function", "method", "subclass", "empty class", "empty object", "wrong class", "wrong function", "scheduler class", "scheduler"]


def bootstrap(ctx):
    """A bootstrap path names one scheduler, or is refused."""
    ctx.fixed_clock(ctx.mkdt(T0))
    BL.clear_bootstrap_cache()
    m = sys.modules["p29boot"] = types.ModuleType("p29boot")
    try:
        kind = ctx.choice("kind", KINDS)
        obj, want = make(kind)
        setattr(m, "Name", obj)
        setattr(m, "Other", obj)
        path = ctx.choice("path", ["p29boot:Name", "p29boot:Nope", "p29boot", "p29boot.Name", "no_such_p29:Name", "p29boot:"])
        try:
            got = BL.load_bootstrap_scheduler(path)
        except Unsupported:
            raise
        except Exception as e:
            ctx.check(path != "p29boot:Name" or want is None, "a valid bootstrap is refused: %r" % e)
            ctx.check(isinstance(e, ImportError if path.startswith("no_such") else (ValueError, TypeError)), "an invalid bootstrap fails with %r" % e)
            ctx.reach("refused")
            return
        ctx.check(path == "p29boot:Name" and want is not None, "an invalid bootstrap is accepted")
        ctx.check(got is want or want is True and type(got) is AsyncIOScheduler, "another scheduler is used")
        ctx.check(got.state == SchedulerState.STATE_STOPPED, "loading a scheduler starts it")
        ctx.check(BL.load_bootstrap_scheduler(path) is got, "a second scheduler is created")
        ctx.reach("accepted")
    finally:
        sys.modules.pop("p29boot", None)
        BL.clear_bootstrap_cache()


VIEWS = ("status", "doctor", "instances")
ARGS = dict(add=lambda i: dict(callable_path="harness.p29:other", interval="90m", job_id=i), inspect=lambda i: dict(job_id=i, as_json=True, count=2), preview=lambda i: dict(job_id=i, as_json=True, count=2), list=lambda i: dict(as_json=True, sort_by="id"),
            timeline=lambda i: dict(as_json=True, per_task=1, limit=100), update=lambda i: dict(job_id=i, name="new", yes=True, as_json=True), **{k: (lambda i: dict(as_json=True)) for k in VIEWS}, **{k: (lambda i: dict(job_id=i)) for k in ("run", "pause", "resume", "remove")})


def booted(ctx, op, started):
    """With --bootstrap a command acts on the scheduler of the application, and only does what it names."""
    clean()
    BL.clear_bootstrap_cache()
    now = ctx.dt("now", T0 + 40 * SEC, T0 + 45 * SEC)
    ctx.fixed_clock(now)
    m = sys.modules["p29boot"] = types.ModuleType("p29boot")
    s = AsyncIOScheduler(stores={"default": {"type": "memory"}, "s2": {"type": "memory"}}, identity="app")
    m.get = lambda: s
    i = ctx.choice("id", ["x", "y", "z"]) if op not in VIEWS + ("list", "timeline") else "x"
    home = {"x": "default", "y": "s2"}.get(i)
    for k, a in (("x", "default"), ("y", "s2"), ("v", "s2")):
        put(ctx, a, k, now, None if k == i and ctx.flag("paused") else ctx.dt("next", T0 + 31 * SEC, T0 + 50 * SEC), fn=atarget if ctx.flag("coroutine") else target, coalesce=True)
    before = rows(ctx)
    ignored = {"store": ["other=memory"]} if ctx.flag("store") else {}
    logs = []

    def call():
        async def begin():
            s.start(paused=True)

        async def idle():
            for _ in range(4):
                await asyncio.sleep(0)

        loop = the_loop()
        if started:
            loop.run_until_complete(begin())
        del STARTED[:]
        f = raw(op)
        args = {p: (False if p in FLAGS else [] if p == "store" else None) for p in f.__code__.co_varnames[:f.__code__.co_argcount]}
        try:
            return f(**dict(args, bootstrap="p29boot:get", **ARGS[op](i), **ignored))
        finally:
            logs.extend([list(STARTED), s.state])
            loop.run_until_complete(idle())

    try:
        r, e = on_loop(call)
    finally:
        sys.modules.pop("p29boot", None)
        BL.clear_bootstrap_cache()
    ran, after, out = list(RUNS), rows(ctx), list(OUT)
    touched, state = logs
    ctx.check(all(x is s for x in touched), "%s uses another scheduler" % op)
    ctx.check(set(WORLD.rows) <= {"default", "s2"}, "%s uses other stores" % op)
    if op in VIEWS:
        ctx.check(not touched and (state == SchedulerState.STATE_STOPPED) == (not started), "%s starts the scheduler" % op)
    else:
        ctx.check(state != SchedulerState.STATE_STOPPED, "%s stops the scheduler of the application" % op)
    missing = i == "z"
    if op != "run" or missing:
        ctx.check(not ran, "%s runs tasks" % op)
    named = (home, i)
    if op in VIEWS + ("list", "timeline", "inspect", "preview") or (missing and op != "add"):
        same_rows(ctx, before, after, op)
        ctx.check((e is None) == (not missing), "%s of a missing task succeeds" % op if missing else "%s fails: %r" % (op, e))
        ctx.reach("end")
        return
    if op == "add":
        same_rows(ctx, before, {k: v for k, v in after.items() if k in before}, op)
        new = set(after) - set(before)
        # ids are unique within a store
        ctx.check(new == (set() if i == "x" else {("default", i)}) and (e is None) == (i != "x"), "another task is added")
        ctx.reach("end")
        return
    ctx.check(e is None, "%s fails: %r" % (op, e))
    same_rows(ctx, before, after, op, but=[named])
    if op == "remove":
        ctx.check(named not in after, "the task is not removed")
    elif op == "pause":
        ctx.check(after[named]["next"] is None, "the task is not paused")
    elif op == "resume":
        ctx.check(after[named]["next"] is not None and after[named]["next"] >= ctx.us(now), "the task is not resumed")
    elif op == "update":
        ctx.check(after[named]["name"] == "new", "the task is not updated")
    elif op == "run":
        ctx.check(len(ran) == 1 and list(ran[0][0]) == [home, i], "not exactly the named task is run")
    ctx.reach("end")


# ------------------------------------------------------------------ start


HOOKS = []


def app_sched():
    return STARTED[-1]


def hook_of(name, coroutine):
    def note():
        s = app_sched()
        HOOKS.append((name, s, s.state, {(t.store_alias, t.name): t for t in s.get_tasks()}))

    async def anote():
        await asyncio.sleep(0)
        note()

    return anote if coroutine else note


class Files:
    """Stands for pathlib.Path in the loader and the watcher."""

    texts, times = {}, {}

    def __init__(self, p):
        self.p = str(p)

    def resolve(self):
        return self

    def exists(self):
        return self.times.get(self.p) is not None

    @property
    def suffix(self):
        return os.path.splitext(self.p)[1]

    def read_text(self, encoding=None):
        return self.texts[self.p]

    def stat(self):
        t = self.times.get(self.p)
        if t is None:
            raise FileNotFoundError(self.p)
        return types.SimpleNamespace(st_mtime=t)


JOBS = [
    dict(name="a", func="harness.p29:other", interval="90m"),
    dict(name="b", func="harness.p29:target", cron="*/5 1 * * mon", args=[1, "x"], kwargs={"k": 2}),
    dict(name="c", func="harness.p29:target", at="2030-01-02T03:04:05+02:00", args=["y"]),
    dict(name="d", func="harness.p29:other", at="2030-01-02"),
    dict(func="harness.p29:other", interval="90m"),
]
BADJOBS = [dict(name="a", func="harness.p29:nothing", interval="90m"), dict(name="a", func="harness.p29:other"), dict(name="a", func="harness.p29:other", interval="90m", cron="* * * * *")]


def setup_start(ctx, source, jobs):
    """Provides the jobs as a module or a file -> options"""
    import yaml

    m = sys.modules["p29jobs"] = types.ModuleType("p29jobs")
    m.__file__ = "/p29/jobs.py"
    for n in ("start", "stop"):
        setattr(m, "on_" + n, hook_of(n, ctx.flag("coroutine hook") if n == "stop" else False))
    if source in ("list", "callable"):
        entries = []
        for j in jobs:
            e = {k: v for k, v in j.items() if k not in ("cron", "interval", "at")}
            e["trigger"] = TY.parse_trigger(cron=j.get("cron"), interval=j.get("interval"), at=j.get("at"), timezone=UTC)
            if e["func"].endswith("other"):
                e["func"] = other
            entries.append(e)
        m.registry = entries if source == "list" else (lambda scheduler: entries)
        return dict(module="p29jobs:registry")
    data = {"jobs": jobs}
    if source == "json":
        Files.texts = {"/p29/jobs.json": json.dumps(data)}
        return dict(config="/p29/jobs.json")
    text = yaml.safe_dump(data).replace("'2030-01-02T03:04:05+02:00'", "2030-01-02T03:04:05+02:00").replace("'2030-01-02'", "2030-01-02")
    Files.texts = {"/p29/jobs.yml": text}
    return dict(config="/p29/jobs.yml")


def check_jobs(ctx, tasks, jobs, tz):
    ctx.check(len(tasks) == len(jobs), "not every job is loaded exactly once")
    for j in jobs:
        t = next((t for t in tasks if t.name == (j.get("name") or "other")), None)
        ctx.check(t is not None and t.store_alias == "default", "a job is not loaded")
        ctx.check(t.fn_reference == j["func"] and list(t.args) == j.get("args", []) and dict(t.kwargs) == j.get("kwargs", {}), "another job is loaded")
        check_trigger(ctx, t.trigger, j.get("cron"), j.get("interval"), j.get("at"), tz)


def start(ctx, source, k):
    """start loads the jobs, starts the scheduler, calls the hooks while it runs, and stops it."""
    clean()
    del HOOKS[:]
    ctx.fixed_clock(ctx.mkdt(T0))
    bad = ctx.choice("bad", [None, *range(len(BADJOBS))]) if source in ("json", "yaml") and k == 1 else None
    jobs = [BADJOBS[bad]] if bad is not None else [JOBS[ctx.choice("job", [n for n in range(len(JOBS)) if n % k == x])] for x in range(k)] if k else []
    zone = ctx.choice("zone", [None, "Europe/Zurich", "America/New_York"])
    try:
        o = setup_start(ctx, source, jobs)
        if ctx.flag("hooks"):
            o.update(on_start="p29jobs:on_start", on_stop="p29jobs:on_stop")
        hooks = "on_start" in o
        o["store"] = ctx.choice("store", [[], ["durable=memory"], ["default=memory"]])
        o["executor"] = ctx.choice("executor", [[], ["io=debug"]])
        r, e = cli("start", timezone=zone, watch_interval=1.0, **o)
    finally:
        sys.modules.pop("p29jobs", None)
    ctx.check(not RUNS, "start runs tasks which are not due")
    ctx.check(all(s.state == SchedulerState.STATE_STOPPED for s in STARTED), "start leaves its scheduler running")
    if bad is not None:
        ctx.check(e is not None and not HOOKS, "an invalid job is accepted")
        ctx.reach("refused")
        return
    ctx.check(e is None, "start fails: %r" % e)
    ctx.check(len(STARTED) == 1, "not exactly one scheduler is started")
    s = STARTED[0]
    tz = s.timezone
    ctx.check(zone is None or str(tz) == zone, "the scheduler is in another time zone")
    ctx.check(set(s.stores) == {"default"} | {x.partition("=")[0] for x in o["store"]}, "the scheduler has other stores")
    ctx.check(set(s.executors) == {"default"} | {x.partition("=")[0] for x in o["executor"]}, "the scheduler has other executors")
    ctx.check([h[0] for h in HOOKS] == (["start", "stop"] if hooks else []), "the hooks are not called once each in their order")
    for n, hs, state, tasks in HOOKS:
        ctx.check(hs is s and state == SchedulerState.STATE_RUNNING, "the %s hook is called while the scheduler does not run" % n)
        check_jobs(ctx, list(tasks.values()), jobs, UTC if source in ("list", "callable") else tz)
    check_jobs(ctx, list(WORLD.rows.get("default", {}).values()), jobs, UTC if source in ("list", "callable") else tz)
    ctx.reach("end")


class Aio:
    """asyncio whose sleep lets the next thing happen."""

    def __getattr__(self, n):
        return getattr(asyncio, n)

    async def sleep(self, delay, *a):
        SLEPT.append(delay)
        what = SCRIPT.pop(0) if SCRIPT else "interrupt"
        if callable(what):
            what()
        elif what == "interrupt":  # as in real loops: the interrupt leaves the loop, not the coroutine

            def stop():
                raise KeyboardInterrupt

            asyncio.get_running_loop().call_soon(stop)
            await asyncio.get_running_loop().create_future()
        elif what == "cancel":
            raise asyncio.CancelledError
        elif what == "keyboard":
            raise KeyboardInterrupt
        await asyncio.sleep(0)


SCRIPT, SLEPT, RELOADED = [], [], []


class Importlib:
    def __getattr__(self, n):
        return getattr(importlib, n)

    def reload(self, m):
        RELOADED.append((m.__name__, len(STARTED)))
        m.registry.append(dict(name="new%d" % len(RELOADED), func=target, trigger=IntervalTrigger(hours=1, start_at=D.datetime(2031, 1, 1, tzinfo=UTC))))
        return m


def standing(ctx, watch, k):
    """A standing scheduler runs until it is interrupted and is booted anew exactly when a watched file changes."""
    clean()
    del HOOKS[:], SCRIPT[:], SLEPT[:], RELOADED[:]
    ctx.fixed_clock(ctx.mkdt(T0))
    source = "list" if watch != "config" else "json"
    end = ctx.choice("end", ["interrupt", "cancel"])
    try:
        o = setup_start(ctx, source, [JOBS[0]])
        o.update(on_start="p29jobs:on_start", on_stop="p29jobs:on_stop", watch_interval=0.5)
        path = {"module": "/p29/jobs.py", "config": "/p29/jobs.json", None: None}[watch]
        first = ctx.int("mtime", 0, 5)
        Files.times = {path: first}
        seen, changes = first, []

        def at(v):
            def f():
                Files.times = {path: v}

            return f

        for n in range(k):
            v = None if ctx.flag("gone") else ctx.int("mtime", 0, 5)
            # what is polled before anything sleeps is the first state
            SCRIPT.append(at(v))
            if v is None:
                changes.append(True)
            else:
                changes.append(bool(v != seen))
                seen = v
        SCRIPT.append(end)
        r, e = cli("start", standalone=watch is None or ctx.flag("standalone"), watch=watch is not None, **o)
    finally:
        sys.modules.pop("p29jobs", None)
    ctx.check(e is None or isinstance(e, KeyboardInterrupt), "start does not end quietly: %r" % e)
    expected = sum(changes) if watch else 0
    ctx.check(len(STARTED) == 1 + expected and len({id(s) for s in STARTED}) == len(STARTED), "the scheduler is booted %d times instead of %d" % (len(STARTED), 1 + expected))
    ctx.check(not SCRIPT and len(SLEPT) == k + 1 and all(x == 0.5 for x in SLEPT), "the scheduler ends early or polls at other intervals")
    ctx.check([h[0] for h in HOOKS] == ["start", "stop"] * len(STARTED), "the hooks are not called once per scheduler: %r" % [h[0] for h in HOOKS])
    for n, h in enumerate(HOOKS):
        ctx.check(h[1] is STARTED[n // 2] and h[2] == SchedulerState.STATE_RUNNING, "a hook is called while its scheduler does not run")
        ctx.check(len(h[3]) >= 1, "the jobs are not loaded")
    ctx.check(all(s.state == SchedulerState.STATE_STOPPED for s in STARTED), "a scheduler is left running")
    if watch == "module":
        ctx.check(RELOADED == [("p29jobs", n + 1) for n in range(expected)], "the module is not reloaded once per change")
        for n in range(expected + 1):
            names = {x for _, x in HOOKS[2 * n][3]}
            ctx.check("new%d" % n in names or n == 0, "the reloaded jobs are not loaded")
    ctx.reach("changed" if expected else "same")


INSTANCES = []


def inst(name, fn, params=None, **k):
    INSTANCES.append(dict(name=name, fn=fn, params=params or {}, opts=dict(dict(extra=EXTRA, extra_concrete=EXTRA), **k.pop("opts", {})), **k))


for _op in ("run", "pause", "resume", "remove"):
    for _l in LAYOUTS:
        inst("%s in %s" % (_op, _l), single, dict(op=_op, layout=_l), reach=["end", "missing"] + (["removed", "resumed"] if _op == "resume" else []))
for _l in LAYOUTS:
    inst("list in " + _l, listing, dict(layout=_l, field=""), reach=["some"])
    for _op in ("inspect", "preview"):
        inst("%s in %s" % (_op, _l), view, dict(op=_op, layout=_l), reach=["end", "missing", "refused"])
    inst("timeline in " + _l, overview, dict(layout=_l, per_task=2), reach=["all", "limited"])
    for _op in ("status", "instances", "doctor"):
        inst("%s in %s" % (_op, _l), summary, dict(op=_op, layout=_l), reach=["end"])
for _f in ("state", "executor", "trigger", "q", "sort"):
    inst("list by " + _f, listing, dict(layout="two", field=_f), reach=["some"] + (["none"] if _f != "sort" else ["refused"]))
for _n in (0, 1, 11):
    inst("timeline with %s runs" % _n, overview, dict(layout="one", per_task=_n), reach=["limited"])
CONFIRM = EXTRA + [(click, "confirm", confirm)]
for _f in [*((f,) for f in EDITS), ("args", "kwargs"), ("callable_path", "args"), ("name", "coalesce"), ("max_instances", "grace"), ()]:
    for _j in (True, False):
        inst("update %s%s" % (" and ".join(_f) or "nothing", " as JSON" if _j else ""), update, dict(fields=_f, as_json=_j), reach=(["refused"] if _f != ("executor",) else []) + (["applied", "declined", "kept"] if _f else []), opts=dict(extra=CONFIRM, extra_concrete=CONFIRM))
for _f in ("callable", "trigger", "args", "names"):
    inst("add with any " + _f, add, dict(varied=_f), reach=["added", "refused"])
STANDING = EXTRA + [("asyncz.cli.commands.start", "asyncio", Aio()), ("asyncz.cli.commands.start", "importlib", Importlib()), ("asyncz.cli.loader", "Path", Files), ("asyncz.cli.utils", "Path", Files)]
inst("bootstrap", bootstrap, reach=["accepted", "refused"])
for _op in ARGS:
    for _s in (True, False):
        inst("%s with bootstrap%s" % (_op, " of a started scheduler" if _s else ""), booted, dict(op=_op, started=_s), reach=["end"])
for _f in ("list", "callable", "json", "yaml"):
    for _k in (0, 1, 2):
        inst("start with %d jobs of a %s" % (_k, _f), start, dict(source=_f, k=_k), reach=["end"] + (["refused"] if _k == 1 and _f in ("json", "yaml") else []), opts=dict(extra=STANDING, extra_concrete=STANDING))


def instances(tier):
    q = tier == "quick"
    out = list(INSTANCES)
    for w in (None, "module", "config"):
        out.append(dict(name="start watching %s" % w, fn=standing, params=dict(watch=w, k=2 if q else 3), reach=["same"] + (["changed"] if w else []), opts=dict(extra=STANDING, extra_concrete=STANDING)))
    out.append(dict(name="intervals", fn=interval, params=dict(n=4 if q else 6), reach=["accepted", "refused"]))
    out.append(dict(name="triggers", fn=trigger, params={}, reach=["accepted", "refused"]))
    for k in ("memory", "file://", "sqlite:///", "postgresql://", ""):
        out.append(dict(name="store %s..." % k, fn=spec, params=dict(n=2 if q else 3, kind=k), reach=["end"] + (["memory"] if k == "memory" else [])))
    out.append(dict(name="options without a name", fn=no_equals, params={}, reach=["end"]))
    mongo = [("asyncz.stores.mongo", "MongoClient", FakeMongo)]
    for k in (0, 1, 2):
        out.append(dict(name="%d stores" % k, fn=stores, params=dict(k=k), reach=["end", "refused"] if k else ["none"], opts=dict(extra=mongo, extra_concrete=mongo, symbolic=False)))
    for k in [*EXECUTORS, "unknown"]:
        out.append(dict(name="executor " + k, fn=executors, params=dict(kind=k, n=2), reach=["refused"] + (["end"] if k != "unknown" else [])))
    return out

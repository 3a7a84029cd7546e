"""P28 what the dashboard's pages, forms and buttons do."""
import asyncio
import datetime as D
import html
import html.parser
import json
import logging
import re
from urllib.parse import parse_qs, quote, urlencode, urlsplit

from symx import fstr

fstr.install("asyncz.contrib.dashboard.controllers._helpers", "asyncz.contrib.dashboard.controllers.tasks", "asyncz.contrib.dashboard.controllers.timeline")

import asyncz.contrib.dashboard.controllers._helpers as H
import asyncz.contrib.dashboard.controllers.audit as C_AUDIT
import asyncz.contrib.dashboard.controllers.events as C_EVENTS
import asyncz.contrib.dashboard.controllers.history as C_HISTORY
import asyncz.contrib.dashboard.controllers.logs as C_LOGS
import asyncz.contrib.dashboard.controllers.tasks as TC
import asyncz.contrib.dashboard.controllers.timeline as TL
import asyncz.tasks.base  # noqa: F401
from asyncz.contrib.dashboard.application import create_dashboard_app
from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage, get_audit_storage
from asyncz.contrib.dashboard.engine import templates
from asyncz.enums import TaskScheduleState
from asyncz.exceptions import MaximumInstancesError, SchedulerNotRunningError, TaskLookupError
from asyncz.schedulers.asyncio import AsyncIOScheduler
from asyncz.tasks.base import Task
from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
from asyncz.triggers.interval import IntervalTrigger
from asyncz.typing import undefined
from lilya.apps import Lilya
from lilya.middleware import DefineMiddleware
from lilya.middleware.sessions import SessionMiddleware
from lilya.requests import Request
from lilya.routing import Include
from symx.ctx import T0, UTC
from symx.engine import Unsupported, cur
from symx.symstr import SymStr
from symx.values import SymInt, is_sym

BOUNDS = "bulk lists of up to 3 (thorough: 5) ids out of pools with every outcome of every action, commas, blanks and JSON shapes; create forms with fields of pools and symbolic texts of up to 3 (thorough: 4) characters; edits of up to two fields of tasks with plain, odd and nested arguments, each field with arbitrary flags and digits or values of a pool; lists of up to 5 (thorough: 7) tasks with pages and sizes of up to 2 (thorough: 3) symbolic characters; filters, sorting and limits; up to 3 tasks in the timeline; every page with 28 ids, with and without mount and proxy; 7 hostile texts in every field and query parameter of every page"
OUTSIDE = "browsers other than as the HTML standard describes forms and links, JavaScript, ids '.', '..' and the empty id, forms sent as files, concurrent requests"
ASSUMPTIONS = ["ASGI servers unquote the path once", "lilya routes and jinja2 renders as documented (both run for real on concrete pages)"]


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("the code waits")


class Req(Request):
    """A request whose form and query may be symbolic."""

    _f = _q = None

    async def form(self, **kw):
        return self._f

    @property
    def query_params(self):
        return self._q


def req(form=None, query=None, task_id=None, method="POST"):
    scope = {"type": "http", "method": method, "path": "/", "root_path": "", "scheme": "http", "server": ("h", 80), "query_string": b"", "headers": [], "session": {}, "state": {},
             "path_params": {} if task_id is None else {"task_id": task_id}}
    r = Req(scope)
    r._f, r._q = form or {}, query or {}
    return r


def segment(link_id):
    """The value of the path parameter for a link to a task: servers unquote paths once."""
    from urllib.parse import unquote

    return unquote(templates.env.from_string("{{ v | path_id }}").render(v=link_id)) if "path_id" in templates.env.filters else link_id


class Sched:
    """A scheduler that records what it is asked to do."""

    def __init__(self, behaviour=None, infos=()):
        self.log, self.behaviour, self.infos = [], behaviour or {}, list(infos)

    def get_task_infos(self, *a, **k):
        self.log.append(("get_task_infos", a, k))
        return list(self.infos)

    def __getattr__(self, name):
        if name.startswith("_") or name == "is_remote":
            raise AttributeError(name)

        def call(*a, **k):
            self.log.append((name, a, k))
            f = self.behaviour.get(name)
            return f(*a, **k) if f else None

        return call

    @property
    def acts(self):
        return [c for c in self.log if c[0] != "get_task_infos"]


NASTY = ["a", "b c", "x/y", "?", "#1", "a%2Fb", "é😀", "<b>", "a,b", '"', "'", "..a", " a", "a:b", "[x]", "\\", "+", "&amp;"]
WHAT = dict(run="run_task", pause="pause_task", resume="resume_task", remove="delete_task")
ERRORS = [None, TaskLookupError("t"), MaximumInstancesError("t", 1), SchedulerNotRunningError(), RuntimeError("broken <i>&")]


def outcomes_of(op):
    return [i for i, e in enumerate(ERRORS) if op == "run" or not isinstance(e, MaximumInstancesError)]


def carried_out(ctx, op, ids, outcomes, sched, resp, calls_after_render=True):
    """Exactly the listed tasks got the action, once each and in order, and every one is audited."""
    acts = sched.acts
    ctx.check(len(acts) == len(ids), "not every listed task gets the action exactly once")
    for i, (name, a, k) in zip(ids, acts):
        ctx.check(name == WHAT[op] and len(a) >= 1 and a[0] == i and all(x is None for x in a[1:]), "another action is carried out")
        ctx.check(k in ({}, {"store": None}) if op != "run" else {x: y for x, y in k.items() if y is not None} == {"remove_finished": False}, "the action has other options")
    records = list(reversed(get_audit_storage().query(limit=50)))
    ctx.check(len(records) == len(ids), "not every action is audited")
    text = resp.body.decode()
    for i, e, r in zip(ids, outcomes, records):
        want = "succeeded" if e is None else "warning" if isinstance(e, MaximumInstancesError) else "failed"
        ctx.check(r.action == "task." + op and r.target_id == i, "the audit trail names another action or task")
        ctx.check(r.status == want, "the audit trail tells another outcome: %s instead of %s" % (r.status, want))
        if e is not None and not isinstance(e, TaskLookupError):
            ctx.check(html.escape(str(e)) in text, "a failed action is not reported on the page")
    ctx.check(resp.status_code == 200 and 'id="tasks-table' in text or "az-table" in text, "the task table is not shown after the action")
    ctx.check("<i>" not in text, "the page contains unescaped text")
    ctx.check(sched.log and sched.log[-1][0] == "get_task_infos", "the table is older than the action")


def bulk(ctx, op, k, raw):
    """A bulk action reaches exactly the listed tasks; a failure does not keep the others from it."""
    ctx.fixed_clock(ctx.mkdt(T0))
    get_audit_storage().clear()
    if raw == "json":
        listed = [ctx.choice("id", NASTY if n == 0 else NASTY[:3] + ["<b>", "a,b"]) for n in range(k)]
        value = json.dumps(listed)
        if ctx.flag("spaces"):
            value = "  " + value + "\n"
        if ctx.flag("bytes"):
            value = value.encode()
    else:
        value = ctx.strlen("ids", 0, k, ["a", "b", ",", " ", '"', "]"])
        listed = [p for p in (x.strip() for x in (value.split(","))) if len(p)]
    ids = []
    for i in listed:
        if not any(bool(i == x) for x in ids):
            ids.append(i)
    outcomes = [ERRORS[ctx.choice("outcome", outcomes_of(op))] if n < (2 if raw == "json" else 1) else None for n in range(len(ids))]
    todo = list(outcomes)

    def act(*a, **kw):
        e = todo.pop(0) if todo else None
        if e is not None:
            raise e

    sched = Sched({WHAT[op]: act})
    cls = getattr(TC, "TaskBulk%sController" % op.title())
    try:
        resp = drive(cls(scheduler=sched).post(req({"ids": value})))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "a bulk action fails: %r" % e)
    carried_out(ctx, op, ids, outcomes, sched, resp)
    ctx.reach("none" if not ids else "some")


def single(ctx, op):
    """The button of a task acts on this task."""
    ctx.fixed_clock(ctx.mkdt(T0))
    get_audit_storage().clear()
    i = ctx.choice("id", NASTY)
    e = ERRORS[ctx.choice("outcome", outcomes_of(op))]

    def act(*a, **kw):
        if e is not None:
            raise e

    sched = Sched({WHAT[op]: act})
    cls = getattr(TC, "TaskHX%sController" % op.title())
    try:
        resp = drive(cls(scheduler=sched).post(req(task_id=segment(i))))
    except Unsupported:
        raise
    except Exception as x:
        ctx.check(False, "an action fails: %r" % x)
    carried_out(ctx, op, [i], [e], sched, resp)
    ctx.reach("end")


# ------------------------------------------------------------------ the form for new tasks


def fn_target(*args, **kwargs):
    pass


PATHS = ["harness.p28:fn_target", " harness.p28:fn_target ", "harness.p28", "harness.p28:nowhere", "no.such:x", "", ":"]
ARGS = [("", []), ("[]", []), (' [1, "x", null] ', [1, "x", None]), ("[[1], {}]", [[1], {}]), ("{}", None), ("3", None), ('"ab"', None), ("null", None), ("[", None), ("[" * 100000, None)]
KWARGS = [("", {}), ("{}", {}), ('{"a": [1]}', {"a": [1]}), ("[]", None), ("1", None), ('"a"', None), ("{'a': 1}", None)]
UNITS = dict(s="seconds", m="minutes", h="hours")


def int_of(ctx, s):
    """The oracle for int(): optional sign and digits within whitespace; None when it is no number."""
    s = s.strip()
    sign = 1
    if len(s) and (bool(s[0] == "-") or bool(s[0] == "+")):
        sign, s = (-1 if bool(s[0] == "-") else 1), s[1:]
    if not len(s):
        return None
    v = 0
    for c in s:
        if not (bool(c >= "0") and bool(c <= "9")):
            return None
        v = v * 10 + ctx.digit(c)
    return sign * v


def trigger_of(ctx, kind, n):
    """-> (the text of the form, the alias and arguments it denotes or None)"""
    if kind == "interval":
        text = ctx.strlen("interval", 0, n, ["0", "5", "9", "-", "s", "m", "h", " ", "x"])
        s = text.strip()
        if not len(s):
            # a blank field means the default only when nothing was entered
            return text, ("interval", {"seconds": 10}) if not len(text) else None
        unit = "seconds"
        for u in UNITS:
            if bool(s[-1] == u):
                unit, s = UNITS[u], s[:-1]
                break
        v = int_of(ctx, s)
        return text, None if v is None else ("interval", {unit: v})
    if kind == "cron":
        parts = [ctx.choice("field", [x, "*"]) for x in ("*/5", "1-3", "2", "1,6", "mon,fri", "7")[:ctx.choice("fields", [4, 5, 6])]]
        text = ctx.choice("separator", [" ", "  ", "\t"]).join(parts)
        return text, ("cron", dict(zip(("minute", "hour", "day", "month", "day_of_week"), parts))) if len(parts) == 5 else None
    if kind == "date":
        text, want = ctx.choice("date", [
            ("2030-01-02T03:04:05", D.datetime(2030, 1, 2, 3, 4, 5)), ("2030-01-02T03:04", D.datetime(2030, 1, 2, 3, 4)), (" 2030-01-02 03:04 ", D.datetime(2030, 1, 2, 3, 4)),
            ("2030-01-02T03:04:05+02:00", D.datetime(2030, 1, 2, 3, 4, 5, tzinfo=D.timezone(D.timedelta(hours=2)))),
            ("2030-01-02T03:04:05 02:00", D.datetime(2030, 1, 2, 3, 4, 5, tzinfo=D.timezone(D.timedelta(hours=2)))),
            ("2030-01-02T03:04:05Z", D.datetime(2030, 1, 2, 3, 4, 5, tzinfo=UTC)), ("2030-01-02", D.datetime(2030, 1, 2)), ("tomorrow", None), ("2030-13-01", None), (" ", None)])
        return text, None if want is None else ("date", {"run_at": want})
    return ctx.choice("value", ["1", "", "x"]), None


def create(ctx, kind, n, remote):
    """The form adds exactly the described task, or reports why it cannot and adds nothing."""
    ctx.fixed_clock(ctx.mkdt(T0))
    get_audit_storage().clear()
    varied = ctx.choice("varied", ["trigger", "callable", "args", "kwargs", "names", "outcome"])

    def vary(what, options, default=0):
        return options[ctx.choice(what, list(range(len(options))))] if varied == what or what == "store" and varied == "names" else options[default]

    path = vary("callable", PATHS)
    text, trigger = trigger_of(ctx, kind, n if varied == "trigger" else 2)
    ra, args = vary("args", ARGS, 2)
    rk, kwargs = vary("kwargs", KWARGS, 2)
    name = vary("names", ["", "n <b>"])
    store, alias = vary("store", [("", "default"), (" s2 ", "s2"), (None, "default")])
    error = vary("outcome", [None, LookupError("no <i>store"), TypeError("wrong <i>args")])
    form = {"callable_path": path, "trigger_type": ctx.choice("spelling", [kind, " %s " % kind.title()]) if varied == "callable" else kind, "trigger_value": text, "args": ra, "kwargs": rk, "name": name}
    if store is not None:
        form["store"] = store

    class Added:
        id, name = "new", None

    def add(*a, **k):
        if error is not None:
            raise error
        return Added

    sched = Sched({"add_task": add})
    if remote:
        sched.is_remote = True
    try:
        resp = drive(TC.TaskCreateController(scheduler=sched).post(req(form)))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the form for new tasks fails: %r" % e)
    acts = sched.acts
    good = trigger is not None and args is not None and kwargs is not None and (remote or path.strip() == "harness.p28:fn_target")
    body = resp.body.decode()
    ctx.check(resp.status_code == 200 and "az-table" in body, "the task table is not shown")
    ctx.check("<i>" not in body, "the page contains unescaped text")
    records = get_audit_storage().query(limit=9)
    ctx.check(len(records) == 1 and records[0].action == "task.create", "the attempt is not audited")
    if not good:
        ctx.check(not acts, "a task is added though the form is invalid")
        ctx.reach("invalid")
    else:
        ctx.check(len(acts) == 1 and acts[0][0] == "add_task", "a valid form does not add exactly one task")
        _, a, k = acts[0]
        k = dict(k)
        fn = a[0] if a else k.pop("fn_or_task", None)
        ctx.check(len(a) <= 1 and (fn == path.strip() if remote else fn is fn_target), "the task has another function")
        ctx.check(k.pop("trigger", None) == trigger[0], "the task has another trigger")
        ctx.check(list(k.pop("args")) == args and dict(k.pop("kwargs")) == kwargs, "the task has other arguments")
        ctx.check((k.pop("name", None) or "") == name.strip() or name, "the task has another name")
        ctx.check(k.pop("store", None) == alias, "the task is added to another store")
        for key, v in trigger[1].items():
            got = k.pop(key, None)
            ctx.check(got is not None and got == v, "the trigger has another %s" % key)
            if kind == "date":
                ctx.check(got.utcoffset() == v.utcoffset(), "the run date has another time zone")
        ctx.check(not {x: y for x, y in k.items() if y is not None and y is not undefined}, "the task has more options than the form")
        ctx.reach("added" if error is None else "refused")
    if good and error is None:
        ctx.check(records[0].status == "succeeded" and records[0].target_id == "new", "the new task is not audited")
        ctx.check('id="flash-1"' not in body, "a success is reported as a failure")
    else:
        ctx.check(records[0].status == "failed", "a failed attempt is audited as %s" % records[0].status)
        ctx.check('id="flash-1"' in body, "a failed attempt is not reported on the page")
        if good:
            ctx.check(html.escape(str(error)) in body, "the reason of the failure is not reported")


# ------------------------------------------------------------------ editing a task


def fn_two(a, b):
    pass


class Odd:
    def __repr__(self):
        return "<odd <i>&>"


ODD = Odd()
SHAPES = dict(
    plain=dict(args=(1, "x"), kwargs={"a": 1}),
    nested=dict(args=((1, 2), {2: 3}, 1.0), kwargs={"b": (1,)}),
    odd=dict(args=(ODD, (1, ODD)), kwargs={"k": ODD, "l": {1: 2, "x": ODD}}),
    mixed=dict(args=({1: 2, "a": 3}, {(1, 2): 3}), kwargs={}),
)
FIELDS = ("name", "callable_path", "args", "kwargs", "executor", "coalesce", "max_instances", "mistrigger_grace_time")
ATTR = dict(name="name", callable_path="fn_reference", args="args", kwargs="kwargs", executor="executor", coalesce="coalesce", max_instances="max_instances", mistrigger_grace_time="mistrigger_grace_time")
BAD = object()
CASES = dict(
    name=[("other <i>", "other <i>"), (" padded ", "padded"), ("", BAD)],
    callable_path=[("harness.p28:fn_two", "harness.p28:fn_two"), ("harness.p28:nowhere", BAD), ("nonsense", BAD), ("", BAD)],
    args=[("[1, true]", [1, True]), ("[1.0, \"x\"]", [1.0, "x"]), ("[]", []), ("", []), ("{}", BAD), ("[", BAD), ('"a"', BAD), ("[" * 100000, BAD)],
    kwargs=[('{"a": true}', {"a": True}), ('{"z": null}', {"z": None}), ("{}", {}), ("", {}), ("[]", BAD), ("{", BAD)],
    executor=[("other", "other"), ("", BAD)],
    coalesce=[("true", True), ("FALSE", False), ("on", True), ("0", False), ("maybe", BAD), ("", BAD)],
    max_instances=[("7", 7), (" 2 ", 2), ("0", BAD), ("-1", BAD), ("1.5", BAD), ("", BAD)],
    mistrigger_grace_time=[("5", 5), ("0.5", 0.5), ("1e3", 1000), ("", None), ("0", BAD), ("-1", BAD), ("nan", BAD), ("inf", BAD), ("1e400", BAD), ("1e15", BAD), ("x", BAD)],
)
TEXT_AS_JSON = json.dumps


class Pages:
    """Records what is given to the page instead of rendering it."""

    def __init__(self):
        self.shown = []

    def __getattr__(self, n):
        return getattr(templates, n)

    def get_template_response(self, request, name, context, status_code=200, **kw):
        self.shown.append((name, context, status_code))
        from lilya.responses import HTMLResponse

        return HTMLResponse("", status_code=status_code)


PAGES = Pages()


class Json:
    """The json module for values that may be symbolic numbers."""

    def __getattr__(self, n):
        return getattr(json, n)

    def dumps(self, v, *a, **k):
        if type(v) is SymInt:
            v = cur().concretize(v.t, limit=300, what="number written as JSON")
        return json.dumps(v, *a, **k)


def task_state(t):
    return {k: getattr(t, k) for k in ("id", "name", "fn", "fn_reference", "args", "kwargs", "executor", "coalesce", "max_instances", "mistrigger_grace_time", "trigger", "next_run_time", "store_alias", "submitted", "scheduler")}


def unchanged(ctx, before, task, what, but=()):
    after = task_state(task)
    for k, v in before.items():
        if k not in but:
            ctx.check(after[k] is v or (type(after[k]) is type(v) and after[k] == v and (k not in ("args", "kwargs") or all(x is y for x, y in zip(v, after[k])))), "%s changes %s" % (what, k))


def same_json(a, b):
    return json.dumps(a, sort_keys=True, default=id) == json.dumps(b, sort_keys=True, default=id)


def edit(ctx, shape, fields, n):
    """Exactly the edited fields change, and only when the update is applied and valid."""
    ctx.fixed_clock(ctx.mkdt(T0))
    get_audit_storage().clear()
    grace = ctx.choice("grace", [None, 0.5, 86399999999999]) if "mistrigger_grace_time" in fields else 1
    name = ctx.choice("old name", ["n", " n\n"]) if "name" in fields else " n "
    plain_fn = fields and "callable_path" not in fields
    fn = ctx.choice("function", ["reference", "object"]) if not plain_fn else "reference"
    task = Task(id="t/1", fn=fn_target if fn == "reference" else (lambda *a, **k: None), trigger=IntervalTrigger(hours=1, start_at=ctx.mkdt(T0)), executor="default", name=name, coalesce=False, max_instances=3, mistrigger_grace_time=grace, store_alias="s", **SHAPES[shape])
    gone = ctx.choice("scheduler", ["works", "fails"]) == "fails"

    def lookup(task_id, alias=None):
        if task_id != "t/1":
            raise TaskLookupError(task_id)
        return task, "s"

    def update(task_id, alias=None, **updates):
        if gone:
            raise TaskLookupError(task_id)
        task.update_task(**updates)
        return task

    sched = Sched({"lookup_task": lookup, "update_task": update})
    sched.is_remote = False
    del PAGES.shown[:]
    try:
        drive(TC.TaskEditController(scheduler=sched).get(req(task_id=segment("t/1"), method="GET")))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the edit page of a task fails: %r" % e)
    ctx.check(len(PAGES.shown) == 1 and PAGES.shown[0][2] == 200, "the edit page is not shown")
    shown = PAGES.shown[0][1]["form"]
    form = {k: shown[k] for k in FIELDS}
    if shown["clear_mistrigger_grace_time"]:
        form["clear_mistrigger_grace_time"] = "1"
    # browsers send these line breaks; the page's own button reformats the JSON
    spelling = ctx.choice("spelling", ["as shown", "CRLF", "compact"])
    if spelling != "as shown":
        for k in ("args", "kwargs"):
            form[k] = form[k].replace("\n", "\r\n") if spelling == "CRLF" else json.dumps(json.loads(form[k]))
    before = task_state(task)
    want, bad = {}, False
    for f in fields:
        if f == "max_instances" and n:
            text = ctx.strlen("max instances", 0, n, ["0", "2", "3", "-", "."])
            v = int_of(ctx, text)
            value = BAD if v is None or bool(v <= 0) else v
        else:
            text, value = CASES[f][ctx.choice(f, list(range(len(CASES[f]))))]
        form[f] = text
        if f == "callable_path" and not text and fn == "object":
            continue  # as shown
        if f == "mistrigger_grace_time":
            if ctx.flag("clear"):
                form["clear_mistrigger_grace_time"] = "1"
                value = None
            else:
                form.pop("clear_mistrigger_grace_time", None)
        if value is BAD:
            bad = True
        else:
            want[f] = value
    # a field which is sent as it was shown is not edited
    for f in list(want):
        old = before[ATTR[f]]
        if f in ("args", "kwargs"):
            cur = list(old) if f == "args" else old
            try:
                if json.dumps(want[f], sort_keys=True) == json.dumps(cur, sort_keys=True):
                    del want[f]
            except TypeError:
                bad = True  # values JSON cannot express cannot be edited
        elif f == "name" and bool(want[f] == old.strip()):
            del want[f]
        elif f != "name" and bool(want[f] == old):
            del want[f]
    if not bad and "callable_path" in want:
        a, k = want.get("args", before["args"]), want.get("kwargs", before["kwargs"])
        bad = len(a) != 2 or bool(k)
    intent = ctx.choice("intent", ["preview", "apply", None])
    if intent:
        form["intent"] = intent
    sched.log.clear()
    del PAGES.shown[:]
    try:
        drive(TC.TaskEditController(scheduler=sched).post(req(form, task_id=segment("t/1"))))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "editing a task fails: %r" % e)
    updates = [c for c in sched.acts if c[0] != "lookup_task"]
    records = get_audit_storage().query(limit=5)
    ctx.check(len(PAGES.shown) == 1, "no page is shown after the edit")
    _, context, status = PAGES.shown[0]
    if bad:
        ctx.check(not updates, "an invalid edit reaches the scheduler")
        unchanged(ctx, before, task, "an invalid edit")
        ctx.check(status == 400 and context["errors"], "an invalid edit is not reported")
        ctx.check(len(records) == 1 and records[0].status == "failed" and records[0].target_id == "t/1", "an invalid edit is not audited")
        ctx.check(not context["applied"], "an invalid edit is shown as applied")
        ctx.reach("invalid")
        return
    if intent != "apply" or not want:
        ctx.check(not updates, "a preview or an edit that changes nothing reaches the scheduler")
        unchanged(ctx, before, task, "a preview or an edit that changes nothing")
        ctx.check(status == 200 and not context["errors"] and not context["applied"], "a preview is shown as an update")
        ctx.check(not records, "a preview is audited as an update")
        ctx.check(len(context["diff_rows"]) == len(context["diff"]) == len(want), "the preview shows other changes")
        ctx.reach("preview" if want else "same")
        return
    ctx.check(len(updates) == 1 and updates[0][0] == "update_task", "an update does not reach the scheduler exactly once")
    ctx.check(updates[0][1][0] == "t/1" and "s" in (updates[0][1][1:2] or (updates[0][2].get("store"),)), "another task is updated")
    ctx.check(len(records) == 1 and records[0].action == "task.update" and records[0].target_id == "t/1" and records[0].status == ("failed" if gone else "succeeded"), "the update is not audited")
    if gone:
        unchanged(ctx, before, task, "a failed update")
        ctx.check(status in (400, 404, 409) and context["errors"] and not context["applied"], "a failed update is not reported")
        ctx.reach("failed")
        return
    unchanged(ctx, before, task, "the update", [ATTR[f] for f in want] + (["fn"] if "callable_path" in want else []) + ["scheduler"])
    for f, v in want.items():
        got = getattr(task, ATTR[f])
        if f in ("args", "kwargs"):
            ctx.check(same_json(list(got) if f == "args" else got, v), "the update gives %s another value" % f)
        else:
            ctx.check(got is v or got == v, "the update gives %s another value" % f)
            ctx.check(f == "name" or type(got) is type(v) or is_sym(v), "the update gives %s a value of another type" % f)
    if "callable_path" in want:
        ctx.check(task.fn is fn_two, "the update keeps the old function")
    ctx.check(status == 200 and context["applied"] and not context["errors"], "an applied update is not shown")
    ctx.reach("applied")


def missing(ctx):
    """Pages of tasks that do not exist say so."""
    ctx.fixed_clock(ctx.mkdt(T0))
    get_audit_storage().clear()
    i = ctx.choice("id", NASTY)

    def lookup(task_id, alias=None):
        raise TaskLookupError(task_id)

    sched = Sched({"lookup_task": lookup})
    del PAGES.shown[:]
    what = ctx.choice("page", ["detail", "edit", "update"])
    cls = TC.TaskDetailController if what == "detail" else TC.TaskEditController
    c = cls(scheduler=sched)
    try:
        drive((c.post if what == "update" else c.get)(req({"intent": "apply", "name": "x"}, task_id=segment(i), method="POST" if what == "update" else "GET")))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the page of a missing task fails: %r" % e)
    ctx.check([x[2] for x in PAGES.shown] == [404] and PAGES.shown[0][1]["task"] is None, "the page of a missing task does not say so")
    ctx.check({x[0] for x in sched.acts} == {"lookup_task"} and sched.acts[0][1][0] == i, "another task is looked up")
    records = get_audit_storage().query(limit=5)
    ctx.check([(r.target_id, r.status) for r in records] == ([(i, "failed")] if what == "update" else []), "the audit trail tells something else")
    ctx.reach("end")


# ------------------------------------------------------------------ lists


def info(i, **kw):
    d = dict(id=i, name="n" + str(i), callable_name="f", callable_reference="m:f", trigger_alias="interval", trigger_name="IntervalTrigger", trigger_description="d", executor="default", store_alias="default", args=(), kwargs={},
             schedule_state=TaskScheduleState.SCHEDULED, next_run_time=None, coalesce=True, max_instances=1, mistrigger_grace_time=None, pending=False, paused=False, submitted=True)
    d.update(kw)
    return TaskInfo.model_construct(**d) if hasattr(TaskInfo, "model_construct") else TaskInfo(**d)


DIGITS = ["0", "1", "2", "7", "-", " ", "x"]


def clamp(ctx, text, default, lo, hi):
    v = int_of(ctx, text) if text is not None else None
    if v is None:
        return default
    return lo if bool(v < lo) else hi if bool(v > hi) else v


def pagination(ctx, total, n):
    """Each page shows its part of the matching tasks: together they show every task once, in order."""
    infos = [info("t%d" % i) for i in range(total)]
    page = ctx.opt("page", lambda: ctx.strlen("page", 0, n, DIGITS))
    per = ctx.opt("rows", lambda: ctx.strlen("rows", 0, n, DIGITS))
    q = {k: v for k, v in (("page", page), ("per_page", per)) if v is not None}
    sched = Sched(infos=infos)
    try:
        c = H.build_task_dashboard_context(sched, req(query=q))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the task list fails: %r" % e)
    want_per = clamp(ctx, per, 50, 1, 200)
    want_page = clamp(ctx, page, 1, 1, 10000)
    count = 1
    while bool(count * want_per < total):
        count += 1
    if bool(want_page > count):
        want_page = count
    first = (want_page - 1) * want_per
    ids = [t["id"] for t in c["tasks"]]
    for i in range(total):
        inside = bool(i >= first) and bool(i < first + want_per)
        ctx.check(("t%d" % i in ids) == inside, "a page does not show its part of the tasks")
    ctx.check(ids == sorted(ids) and len(set(ids)) == len(ids), "a page shows tasks twice or in another order")
    p = c["pagination"]
    ctx.check(p["page"] == want_page and p["per_page"] == want_per and p["page_count"] == count and p["total"] == total, "the page numbers are wrong")
    ctx.check(bool(p["has_previous"]) == bool(want_page > 1) and bool(p["has_next"]) == bool(want_page < count), "a link to another page is missing")
    ctx.check(c["visible_tasks"] == total and c["total_tasks"] == total and c["scheduled_tasks"] == total and c["paused_tasks"] == 0 and c["pending_tasks"] == 0, "the numbers of tasks are wrong")
    ctx.reach("many" if count > 1 else "one")


STATES = [None, "", "paused", " Scheduled ", "PENDING", "bogus", "running"]
SORTS = [None, "", "id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger", " name ", "bogus", "__class__"]


def filters(ctx, k):
    """The filters of the query reach the scheduler, nonsense is ignored, and links keep the filters."""
    q = {}
    varied = ctx.choice("varied", ["q", "executor", "trigger"]) if not k else ["", "executor", "q"][k]
    for name in ("q", "executor", "trigger"):
        if k and name != varied:
            continue
        v = ctx.choice(name, [None, "", "  ", " a "] + (NASTY if name == "q" else ["x&page=9", "é+"]) if name == varied and not k else [None, " a&"])
        if v is not None:
            q[name] = v
    if k:
        q.update({n: v for n, v in (("state", ctx.choice("state", STATES)),) if v is not None})
        q.update({n: v for n, v in (("sort", ctx.choice("sort", SORTS)), ("direction", ctx.choice("direction", [None, "asc", "DESC ", "x"]))) if v is not None})
    sched = Sched(infos=[info("t%d" % i) for i in range(5)])
    q["per_page"] = "2"
    page = ctx.choice("page", [None, "2", "3"] if k < 2 else [None, "2"])
    if page:
        q["page"] = page
    try:
        c = H.build_task_dashboard_context(sched, req(query=q))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the task list fails: %r" % e)
    calls = [{x: y for x, y in kw.items() if y is not None} for _, a, kw in sched.log if kw]
    want = {n: q[n].strip() for n in ("q", "executor", "trigger") if q.get(n, "").strip()}
    state = q.get("state", "").strip().lower()
    if state in ("paused", "scheduled", "pending"):
        want["schedule_state"] = state
    sort = q.get("sort", "").strip()
    want["sort_by"] = sort if sort in ("id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger") else "next_run_time"
    want["descending"] = q.get("direction", "").strip().lower() == "desc"
    ctx.check(len(calls) == 1 and calls[0] == want, "the scheduler gets other filters than the query")
    p = c["pagination"]
    for suffix, at in ((c["query_suffix"], p["page"]), (p["previous_query_suffix"], p["previous_page"]), (p["next_query_suffix"], p["next_page"])):
        ctx.check(suffix == "" or suffix[0] == "?" and all(32 < ord(x) < 127 and x not in '"<>#\'' for x in suffix), "a link is not a valid URL")
        again = {a: b[-1] for a, b in parse_qs(suffix[1:], keep_blank_values=True).items()}
        s2 = Sched(infos=sched.infos)
        c2 = H.build_task_dashboard_context(s2, req(query=again))
        calls2 = [{x: y for x, y in kw.items() if y is not None} for _, a, kw in s2.log if kw]
        ctx.check(calls2 == calls, "a link to another page changes the filters")
        ctx.check(c2["pagination"]["page"] == at and c2["pagination"]["per_page"] == 2, "a link leads to another page")
    ctx.reach("end")


class Store:
    def __init__(self):
        self.asked = []

    def query(self, **kw):
        self.asked.append(kw)
        return []

    def summary(self):
        return {}


STORE = Store()


def limits(ctx, page, n):
    """Lists never show more records than allowed; their filters reach the storage."""
    text = ctx.opt("limit", lambda: ctx.strlen("limit", 0, n, DIGITS))
    q = {} if text is None else {"limit": text}
    mod, build, names = dict(history=(C_HISTORY, "build_history_context", ("task_id", "status", "source", "q")), audit=(C_AUDIT, "build_audit_context", ("action", "status", "q")),
                             events=(C_EVENTS, "build_events_context", ("category", "name", "task_id", "q")), logs=(C_LOGS, "build_log_context", ("task_id", "run_id", "level", "q")))[page]
    f = ctx.choice("filter", [None, *names])
    if f:
        v = ctx.choice("value", [" Ab ", "  ", ""])
        q[f] = v
    del STORE.asked[:]
    try:
        getattr(mod, build)(req(query=q))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the %s page fails: %r" % (page, e))
    ctx.check(len(STORE.asked) == 1, "the storage is not asked once")
    asked = dict(STORE.asked[0])
    ctx.check(asked.pop("limit") == clamp(ctx, text, 200, 1, 1000), "the number of records is not the requested one within its bounds")
    got = {a: b for a, b in asked.items() if b is not None}
    ctx.check({a: b.lower() for a, b in got.items()} == ({f: "ab"} if f and q[f].strip() else {}), "the storage gets other filters")
    if f in ("task_id", "run_id") and f in got:
        ctx.check(got[f] == "Ab", "the storage gets another id")
    ctx.reach("end")


def timeline(ctx, shape, counts):
    """The timeline lists the upcoming runs of every task, earliest first, up to the limit."""
    ids = dict(distinct=["a", "b", "c"], stores=["a", "a", "b"])[shape]
    stores = dict(distinct=["default"] * 3, stores=["s1", "s2", "s1"])[shape]
    runs, exhausted = {}, {}
    for i, s in zip(ids, stores):
        m = 1 if counts else ctx.choice("runs", [0, 1, 2] if not runs else [1])
        runs[i, s] = [ctx.dt("run", T0, T0 + 10**10) if not counts else ctx.mkdt(T0 + len(runs)) for _ in range(m)]
        exhausted[i, s] = ctx.flag("exhausted") if counts or s != "s1" or not runs else False
    gone = ctx.choice("gone", [None, "b"])
    per = ctx.opt("per task", lambda: ctx.strlen("per task", 1, 2, ["0", "1", "3", "x"])) if counts else None
    lim = ctx.choice("limit", [None, "1", "2", "0", "999"] if counts else [None, "1", "2"])
    asked = []

    def preview(task_id, store=None, *, count=5, now=None):
        asked.append(count)
        for i, s in zip(ids, stores):
            if i == task_id and store in (None, s):
                return None if gone == i else TaskRunPreview.model_construct(task=info(i), timezone="UTC", generated_at=None, requested_count=count, run_times=tuple(runs[i, s]), exhausted=exhausted[i, s])
        return None

    sched = Sched({"preview_task_runs": preview}, infos=[info(i, store_alias=s) for i, s in zip(ids, stores)])
    q = {k: v for k, v in (("per_task", per), ("limit", lim)) if v is not None}
    try:
        c = TL.build_timeline_context(sched, req(query=q))
    except Unsupported:
        raise
    except Exception as e:
        ctx.check(False, "the timeline fails: %r" % e)
    want_per = clamp(ctx, per, 3, 1, 10)
    for a in asked:
        ctx.check(a == want_per, "another number of runs per task is calculated")
    every = [(i, s, r) for (i, s), rs in runs.items() if i != gone for r in rs]
    limit = {None: 100, "1": 1, "2": 2, "0": 1, "999": 500}[lim]
    rows = c["rows"]
    ctx.check(len(rows) == min(limit, len(every)) and c["total_rows"] == len(every) and c["visible_rows"] == len(rows) and c["task_count"] == 3, "the timeline has another number of rows")
    left = list(every)
    for row in rows:
        hit = [e for e in left if e[0] == row["task_id"] and e[1] == row["store"] and bool(e[2] == row["run_time"])]
        ctx.check(bool(hit), "the timeline lists a run of no task")
        left.remove(hit[0])
    for x, y in zip(rows, rows[1:]):
        ctx.check(not (y["run_time"] < x["run_time"]), "the timeline is not sorted")
    for e in left:
        ctx.check(not (e[2] < rows[-1]["run_time"]), "the timeline leaves out an earlier run")
    ctx.check(c["exhausted_count"] == sum(1 for k, v in exhausted.items() if v and k[0] != gone), "the number of exhausted tasks is wrong")
    ctx.check((c["next_run"] is None) == (not rows) and (not rows or c["next_run"] is rows[0]), "the next run is not the earliest")
    ctx.reach("cut" if left else "all")


# ------------------------------------------------------------------ the pages themselves


class Listed(AsyncIOScheduler):
    """A scheduler whose actions only record the task they are asked for."""

    acts = ()

    def wakeup(self):
        pass

    def run_task(self, i, *a, **k):
        self.acts.append(("run", i))

    def pause_task(self, i, *a, **k):
        self.acts.append(("pause", i))

    def resume_task(self, i, *a, **k):
        self.acts.append(("resume", i))

    def delete_task(self, i, *a, **k):
        self.acts.append(("remove", i))


APPS = {}


def dashboard(mode):
    """-> (app, path of the dashboard, its scheduler)"""
    if mode not in APPS:
        from asyncz.contrib.dashboard.admin import AsynczAdmin

        logging.disable(logging.CRITICAL)

        sched = Listed(timezone=UTC)
        admin = AsynczAdmin(enable_login=False, scheduler=sched, url_prefix="/dash", enable_forward_middleware=True, trusted_forwarded_hosts=["*"])
        if mode == "plain":
            app, base = admin.get_asgi_app(), ""
        else:
            app, base = Lilya(routes=[Include("/ops", app=admin.get_asgi_app(with_url_prefix=True))]), "/ops/dash"
        APPS[mode] = app, base, sched
    return APPS[mode]


def http(app, method, url, body=b"", headers=()):
    """A request of a browser for a URL."""
    from urllib.parse import unquote

    u = urlsplit(url)
    sent = []

    async def send(m):
        sent.append(m)

    async def receive():
        return {"type": "http.request", "body": body, "more_body": False}

    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": unquote(u.path), "raw_path": u.path.encode(), "query_string": u.query.encode(), "root_path": "",
             "headers": [(b"host", b"testserver"), (b"content-length", b"%d" % len(body)), (b"content-type", b"application/x-www-form-urlencoded"), *headers], "client": ("127.0.0.1", 5), "server": ("testserver", 80), "state": {}}
    try:
        asyncio.run(app(scope, receive, send))
    except Exception as e:
        return 500, {}, repr(e)
    h = {k.decode().lower(): v.decode("latin-1") for k, v in sent[0]["headers"]}
    return sent[0]["status"], h, b"".join(m.get("body", b"") for m in sent[1:]).decode("utf-8", "replace")


class Dom(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.tags, self.text, self.area, self.areas = [], [], None, {}
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        self.tags.append((tag, attrs))
        if tag == "textarea":
            self.area = attrs.get("name")
            self.areas[self.area] = ""

    def handle_endtag(self, tag):
        if tag == "textarea":
            self.area = None

    def handle_data(self, data):
        self.text.append(data)
        if self.area:
            self.areas[self.area] += data

    def fields(self):
        out = dict(self.areas)
        for tag, a in self.tags:
            if tag == "input" and a.get("name") and (a.get("type") != "checkbox" or "checked" in a):
                out[a["name"]] = a.get("value") or ""
        # the selected or first option of a list
        name, chosen = None, False
        for tag, a in self.tags:
            if tag == "select":
                name, chosen = a.get("name"), False
            elif tag == "option" and name and (name not in out or "selected" in a and not chosen):
                out[name], chosen = a.get("value") or "", "selected" in a
        return out


EVIL = ["plain", '<evil a="1">&amp;', "\"onx='1' onx=\"1", "</script><evil>", "'><evil>", "{{ 7 * 7 }}", "</textarea><evil>"]


def nobody():
    pass


def world(ctx, s, i, evil, state):
    """A scheduler with a task of this id, another one and records about them, all carrying evil texts."""
    from asyncz.contrib.dashboard.controllers.logs import get_log_storage
    from asyncz.contrib.dashboard.events import get_scheduler_event_storage
    from asyncz.contrib.dashboard.history import get_run_history_storage
    from asyncz.events import TaskExecutionEvent, TaskSubmissionEvent

    get_audit_storage().clear()
    hist, feed, logs = get_run_history_storage(), get_scheduler_event_storage(), get_log_storage()
    for st in (hist, feed, logs):
        st.clear()
    s.__init__(timezone=UTC, identity="i " + evil, stores={"default": {"type": "memory"}})
    s.acts = []
    s.add_task(nobody, trigger="interval", hours=1, id=i, name=evil, args=[], kwargs={})
    s.add_task(nobody, trigger="interval", hours=2, id="other", name="other")
    t = s.pending_tasks[0][0]
    t.args, t.kwargs = (evil, ODD), {"k": evil}
    if state != "pending":
        from asyncz.enums import SchedulerState

        for task, *_ in s.pending_tasks:
            task.pending = False
            task.next_run_time = None if state == "paused" else D.datetime(2024, 1, 1, 5, tzinfo=UTC)
    when = D.datetime(2024, 1, 1, tzinfo=UTC)
    from asyncz.events.constants import TASK_ERROR, TASK_SUBMITTED

    sub = TaskSubmissionEvent(code=TASK_SUBMITTED, task_id=i, alias="default", scheduled_run_times=[when])
    run = TaskExecutionEvent(code=TASK_ERROR, task_id=i, alias="default", scheduled_run_time=when, exception=ValueError(evil), traceback=evil)
    hist.record_submission(sub, scheduler=s, log_storage=logs)
    hist.record_execution(run, scheduler=s, log_storage=logs)
    for e in (sub, run):
        feed.append(e, scheduler=s)
    logs.append({"ts": when, "level": "INFO", "message": evil, "task_id": i, "logger": evil, "extra": {"x": evil}})
    get_audit_storage().append(action="task.run", status="failed", target_id=i, message=evil, details={"d": evil})
    return s, hist.query(limit=1)[0].run_id


PAGES_OF = ["/", "/tasks/", "/tasks/partials/table", "TASK", "TASK/edit", "/history/", "/history/partials/table", "/history/RUN", "/audit/", "/events/", "/timeline/", "/instances/", "/runtime/", "/logs/", "/logs/partials/table"]
IDS = [x for x in NASTY] + ["%", "%2F", "create", "partials", "hx", "a/b/edit", "a&b=c", "x;y", "../up", "a//b"]


SEEN = set()


def links(ctx, mode, page):
    """Every link and button of a page works, whatever the id of a task looks like, and leads to this task."""
    ctx.fixed_clock(ctx.mkdt(T0))
    app, base, s = dashboard(mode)
    i = ctx.choice("id", IDS)
    state = ctx.choice("state", ["scheduled", "pending", "paused"]) if page in ("/tasks/", "/tasks/partials/table") and i in IDS[:4] else "scheduled"
    ext = ctx.choice("proxy", ["", "/ext"])
    s, run = world(ctx, s, i, "plain", state)
    fwd = [(b"x-forwarded-prefix", ext.encode())] if ext else []
    one = base + "/tasks/" + quote(quote(i, safe=""), safe="")
    url = page.replace("TASK", one).replace("RUN", run) if page.startswith("TASK") else base + page.replace("RUN", run)
    status, h, text = http(app, "GET", url, headers=fwd)
    ctx.check(status == 200, "a page of the task fails: %s" % page)
    dom = Dom(text)
    acts = 0
    for tag, a in dom.tags:
        for attr in ("href", "hx-get", "src", "hx-post", "action"):
            u = a.get(attr)
            if not u:
                continue
            if u.startswith("http://testserver"):
                u = u[len("http://testserver"):]
            if not u.startswith("/"):
                # relative to the page
                from urllib.parse import urljoin

                ctx.check(not urlsplit(u).scheme and not u.startswith("#") or u.startswith("#"), "a link leads elsewhere: %s" % u)
                if u.startswith("#"):
                    continue
                u = urljoin("http://testserver" + ext + url, u)[len("http://testserver"):]
            ctx.check(not u.startswith("//") and u.startswith(ext + base + "/"), "a link leads outside the dashboard")
            u = u[len(ext):]
            if attr == "hx-post":
                if "/hx/bulk/" in u or urlsplit(u).path == base + "/tasks/create":
                    continue
                what = urlsplit(u).path.rsplit("/", 1)[1]
                del s.acts[:]
                st, _, _ = http(app, "POST", u, headers=fwd)
                ctx.check(st == 200 and len(s.acts) == 1 and s.acts[0][0] == what, "a button does not carry out its action")
                ctx.check(s.acts[0][1] in (i, "other"), "a button acts on another task")
                acts += s.acts[0][1] == i
            elif attr == "action":
                if a.get("method") == "post":
                    st, _, got = http(app, "POST", u, urlencode({**dom.fields(), "intent": "preview"}).encode(), headers=fwd)
                    ctx.check(st == 200, "the form of the edit page does not reach the task")
                    ctx.check(not get_audit_storage().query(action="task.update"), "the form of the edit page fails")
                    acts += 1
            elif "/static/" not in u or attr == "src" and "task" in u:
                if "task_id" not in u and not u.startswith(base + "/tasks/"):
                    # the same for every task
                    if (mode, ext, u) in SEEN:
                        continue
                    SEEN.add((mode, ext, u))
                st, h, got = http(app, "GET", u, headers=fwd)
                if st in (301, 302, 303, 307, 308):
                    # a slash is added
                    to = h["location"].removeprefix("http://testserver")
                    ctx.check(to.startswith(ext + base + "/"), "a link is redirected to elsewhere: %s" % to)
                    st, h, got = http(app, "GET", to[len(ext):], headers=fwd)
                ctx.check(st == 200, "a link is dead: %s %s" % (u, st))
                p = urlsplit(u)
                if "task_id" in p.query:
                    ctx.check(parse_qs(p.query)["task_id"][0] in (i, "other"), "a link shows the records of another task")
                    if i.strip() == i:
                        ctx.check("plain" in "".join(Dom(got).text) or parse_qs(p.query)["task_id"][0] != i, "a link does not show the records of the task")
                    acts += 1
                elif p.path.startswith(base + "/tasks/") and p.path not in (base + "/tasks/", base + "/tasks/partials/table"):
                    words = "".join(Dom(got).text)
                    ctx.check(i in words or "other" in words, "a link leads to another task")
                    acts += i in words
    if page in ("/tasks/", "/tasks/partials/table"):
        ctx.check(acts >= (5 if page.endswith("table") else 5), "the task has not all of its buttons")
    ctx.reach("end")


QUERIES = ["", "q=%s", "task_id=%s", "run_id=%s", "state=%s", "status=%s", "sort=%s", "direction=%s", "page=%s", "per_page=%s", "limit=%s", "level=%s", "name=%s", "category=%s", "action=%s", "source=%s", "executor=%s", "trigger=%s", "per_task=%s"]


def escaped(ctx, page):
    """Texts of tasks, records and queries appear as text; no page fails because of them."""
    ctx.fixed_clock(ctx.mkdt(T0))
    app, base, s = dashboard("plain")
    evil = ctx.choice("text", EVIL)
    s, run = world(ctx, s, "t1", evil, "scheduled")
    query = ctx.choice("query", QUERIES)
    if query:
        query = "?" + query % quote(ctx.choice("value", [evil, "-1", "", "\0", "9" * 30]))
    url = base + page.replace("TASK", "/tasks/t1").replace("RUN", run) + query
    status, h, text = http(app, "GET", url)
    ctx.check(status == 200, "a page fails: %s" % page)
    dom = Dom(text)
    ctx.check(not any(tag == "evil" for tag, _ in dom.tags) and not any("onx" in a for _, a in dom.tags), "a text becomes markup")
    ctx.check("49" not in text or evil != "{{ 7 * 7 }}" or "{{ 7 * 7 }}" in text, "a text is evaluated")
    if not query and page in ("/tasks/", "/tasks/partials/table", "TASK", "/history/RUN", "/audit/"):
        ctx.check(evil in "".join(dom.text), "a text is not shown as it is")
    if page == "TASK/edit":
        f = dom.fields()
        ctx.check(f["name"] == evil and json.loads(f["args"])[0] == evil and json.loads(f["kwargs"]) == {"k": evil}, "the form does not show the values of the task")
        st, _, got = http(app, "POST", url, urlencode({**f, "intent": "apply"}).encode())
        ctx.check(st == 200 and not get_audit_storage().query(action="task.update"), "a form sent as it is shown is refused or changes the task")
    ctx.reach("end")


def instances(tier):
    q = tier == "quick"
    out = []
    shot = [(TC.__name__, "templates", PAGES)]
    eo = dict(extra=shot + [(TC.__name__, "json", Json())], extra_concrete=shot)
    for op in WHAT:
        for raw in ("json", "commas"):
            out.append(dict(name="%s the listed tasks (%s)" % (op, raw), fn=bulk, params=dict(op=op, k=(2 if raw == "json" else 3) if q else (3 if raw == "json" else 5), raw=raw), reach=["none", "some"] if raw == "commas" else ["some"], weight=8))
        out.append(dict(name="%s one task" % op, fn=single, params=dict(op=op), reach=["end"], weight=3))
    for kind in ("interval", "cron", "date", "bogus"):
        for remote in (False, True) if kind == "cron" else (False,):
            out.append(dict(name="new %s task%s" % (kind, ", remote" if remote else ""), fn=create, params=dict(kind=kind, n=3 if q else 4, remote=remote), reach=["invalid"] if kind == "bogus" else ["invalid", "added", "refused"], weight=8))
    pairs = [()] + [(f,) for f in FIELDS] + [("args", "callable_path"), ("kwargs", "callable_path"), ("args", "kwargs"), ("name", "max_instances"), ("coalesce", "mistrigger_grace_time"), ("executor", "args")]
    for shape in SHAPES:
        for f in pairs:
            if len(f) == 2 and shape != "plain" and f != ("args", "kwargs"):
                continue
            out.append(dict(name="edit %s of a task with %s arguments" % (" and ".join(f) or "nothing", shape), fn=edit, params=dict(shape=shape, fields=f, n=2 if f == ("max_instances",) else 0), reach=["same"] if not f else [], weight=5, opts=eo))
    for total in (0, 1, 3, 5) if q else (0, 1, 2, 3, 5, 7):
        out.append(dict(name="pages of %d tasks" % total, fn=pagination, params=dict(total=total, n=2 if q else 3), reach=["one"] + (["many"] if total > 1 else []), weight=7))
    for k in range(3):
        out.append(dict(name="filters %d" % k, fn=filters, params=dict(k=k), reach=["end"], weight=7))
    for page in ("history", "audit", "events", "logs"):
        lo = [(m.__name__, g, lambda *a, **k: STORE) for m, g in ((C_HISTORY, "get_run_history_storage"), (C_AUDIT, "get_audit_storage"), (C_EVENTS, "get_scheduler_event_storage"), (C_LOGS, "get_log_storage"))]
        out.append(dict(name="limits of the %s page" % page, fn=limits, params=dict(page=page, n=4 if q else 5), reach=["end"], weight=5, opts=dict(extra=lo, extra_concrete=lo)))
    for shape in ("distinct", "stores"):
        for counts in (False, True):
            out.append(dict(name="timeline, %s ids%s" % (shape, ", counts" if counts else ""), fn=timeline, params=dict(shape=shape, counts=counts), reach=["cut", "all"], weight=8))
    for page in PAGES_OF:
        for mode in ("plain", "mounted"):
            out.append(dict(name="links of %s, %s" % (page, mode), fn=links, params=dict(mode=mode, page=page), reach=["end"], weight=6))
        out.append(dict(name="texts on %s" % page, fn=escaped, params=dict(page=page), reach=["end"], weight=6))
    out.append(dict(name="missing tasks", fn=missing, params={}, reach=["end"], weight=2, opts=eo))
    return out

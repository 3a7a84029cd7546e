"""P27 controlling a scheduler in another process: the remote client is the scheduler it talks to."""
import asyncio
import datetime as D
import http.client
import inspect
import io
import json
import pickle
import urllib.error
import urllib.parse
import urllib.request

from symx import fstr

fstr.install("asyncz.contrib.dashboard.remote")

import asyncz.contrib.dashboard.remote as R
import asyncz.schedulers.asyncio  # noqa: F401
import asyncz.stores.memory  # noqa: F401
from asyncz.enums import TaskScheduleState
from asyncz.exceptions import ConflictIdError, MaximumInstancesError, SchedulerNotRunningError, TaskLookupError
from asyncz.schedulers.base import BaseScheduler
from asyncz.schedulers.inspection import SchedulerInfo, SchedulerInstanceInfo
from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
from asyncz.triggers.interval import IntervalTrigger
from asyncz.typing import undefined
from harness import p19
from harness import world as W
from lilya.apps import Lilya
from lilya.routing import Include
from symx.ctx import T0, UTC, And, Eq, Not
from symx.symstr import SymStr
from symx.values import is_sym

BOUNDS = "every client method with arbitrary numbers, flags and strings of up to 3 characters for its options, each omitted, None or given; tokens of up to 3 characters against every endpoint; every error at every endpoint; one malformed part per request; ids of up to 3 characters of a nasty alphabet and names from a pool in the real HTTP path; two (thorough: three) operations on a real scheduler; arbitrary updates of the preview task"
OUTSIDE = "arguments JSON cannot express sent by the client (documented), named time zones (they arrive as fixed offsets), ids '.' and '..' and the empty id, other services that answer with valid JSON"
ASSUMPTIONS = ["ASGI servers unquote the path once", "json, urllib.parse and pickle do as documented"]
FN = "asyncz.utils:obj_to_ref"


# ------------------------------------------------------------------ the wire


def plain(v, path="payload"):
    """What arrives of a JSON document; only what JSON can express may be sent."""
    if v is None or is_sym(v) or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, str):
        return str(v) if type(v) is not SymStr else v
    if type(v) in (list, tuple):
        return [plain(x, path) for x in v]
    if type(v) is dict:
        assert all(isinstance(k, str) for k in v), "a key is not a string"
        return {k: plain(x, path) for k, x in v.items()}
    raise TypeError("%s is not JSON: %r" % (path, v))


class Raw(bytes):
    """The bytes of a JSON document."""

    value = None


class Json:
    def loads(self, raw, *a, **k):
        return plain(raw.value) if type(raw) is Raw else json.loads(raw, *a, **k)

    def __getattr__(self, n):
        return getattr(json, n)


class Parse:
    """Quoting of symbolic strings: the alphabets used here need none."""

    def __getattr__(self, n):
        f = getattr(urllib.parse, n)
        if n in ("quote", "unquote", "quote_plus", "unquote_plus"):
            return lambda s, *a, **k: s if type(s) is SymStr else f(s, *a, **k)
        return f


class Urllib:
    parse = Parse()

    def __getattr__(self, n):
        return getattr(urllib, n)


class Response:
    def __init__(self, content=None, status_code=200, **kw):
        self.content, self.status_code = plain(content, "response"), status_code


class Request:
    def __init__(self, headers, path_params, query, payload):
        self.headers, self.path_params, self.query_params = headers, path_params, query
        self.raw = Raw(b"" if payload is None else b"{}")
        self.raw.value = payload

    async def body(self):
        return self.raw

    async def json(self):
        return plain(self.raw.value)


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("the code waits")


class Wire:
    """A transport that routes requests to the handlers of the worker application."""

    def __init__(self, ctx, app):
        self.ctx, self.app, self.sent = ctx, app, []

    def __call__(self, method, path, payload, headers, query):
        try:
            payload = None if payload is None else plain(payload)
        except TypeError as e:
            self.ctx.check(False, "%s %s: %s" % (method, path, e))
        self.sent.append((method, path, payload, query))
        parts = [p if type(p) is SymStr else urllib.parse.unquote(p) for p in path.split("/")]
        known = False
        for route in self.app.routes:
            want = route.path.split("/")
            if len(want) != len(parts):
                continue
            params = {}
            for w, p in zip(want, parts):
                if w.startswith("{"):
                    params[w[1:-1].split(":")[0]] = p
                elif type(p) is SymStr or w != p:
                    break
            else:
                known = True
                if method in route.methods:
                    q = {k: v if is_sym(v) else str(v) for k, v in (query or {}).items()}
                    low = {k.lower(): v for k, v in headers.items()}
                    r = drive(route.handler(Request(low, params, q, payload)))
                    return r.status_code, plain(r.content)
        raise AssertionError("%s %r is not routed%s" % (method, path, " for this method" if known else ""))


STUB = [(R.__name__, "JSONResponse", Response), (R.__name__, "json", Json()), (R.__name__, "urllib", Urllib())]
STUBBED = dict(extra=STUB, extra_concrete=STUB)


# ------------------------------------------------------------------ the scheduler at the other end


def info(i="t1", **kw):
    d = dict(id=i, name="n", callable_name="f", callable_reference=FN, trigger_alias="interval", trigger_name="IntervalTrigger", trigger_description="every second", executor="default", store_alias="default", schedule_state=TaskScheduleState.SCHEDULED,
             next_run_time=D.datetime(2024, 3, 1, 12, 0, 0, 5, tzinfo=UTC), coalesce=True, max_instances=2, mistrigger_grace_time=1.5, pending=False, paused=False, submitted=True, args=(1, "x"), kwargs={"k": [1]})
    return TaskInfo(**{**d, **kw})


class Known:
    """A task of the recording scheduler."""

    def __init__(self, i):
        self.info = i

    def snapshot(self):
        return self.info


NOW = D.datetime(2024, 1, 1, tzinfo=UTC)
METHODS = ("add_task", "update_task", "run_task", "pause_task", "resume_task", "delete_task", "get_task", "get_task_info", "get_task_infos", "preview_task_runs", "get_scheduler_info", "get_scheduler_instance_infos", "lookup_task")
MUTATING = METHODS[:6]


class Recorder:
    """Records what is asked of it; results are given."""

    identity, timezone = "s", UTC

    def __init__(self, results=None, fail=None):
        self.calls, self.results, self.fail = [], results or {}, fail

    def __getattr__(self, name):
        if name not in METHODS:
            raise AttributeError(name)

        def call(*a, **kw):
            self.calls.append((name, a, kw))
            if self.fail is not None:
                raise self.fail
            return self.results.get(name)

        return call


def bound(call):
    """The call as the scheduler's own signature sees it."""
    name, a, kw = call
    b = inspect.signature(getattr(BaseScheduler, name)).bind(None, *a, **kw)
    b.apply_defaults()
    d = dict(b.arguments)
    d.pop("self", None)
    for k in ("trigger_args", "updates"):
        d.update({k + "." + n: v for n, v in (d.pop(k, None) or {}).items()})
    if name == "add_task":
        fn = d.pop("fn")
        d["fn_or_task"] = d["fn_or_task"] if fn is None else fn
        if callable(d["fn_or_task"]):
            d["fn_or_task"] = R.obj_to_ref(d["fn_or_task"])
        d["args"], d["kwargs"] = d["args"] or (), d["kwargs"] or {}
        for k in ("store", "executor"):
            d[k] = None if d[k] is undefined else d[k]
    return d


def same(a, b):
    """Equal as far as the scheduler can tell."""
    if a is b:
        return True
    if isinstance(a, D.datetime) or isinstance(b, D.datetime):
        return all(x is not None for x in (a, b)) and moment(a) == moment(b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and And(True, *[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and And(True, *[same(a[k], b[k]) for k in a])
    if hasattr(a, "get_next_trigger_time"):
        return type(a) is type(b) and [a.get_next_trigger_time(UTC, None, w) for w in WHENS if w.tzinfo] == [b.get_next_trigger_time(UTC, None, w) for w in WHENS if w.tzinfo]
    if a is undefined or b is undefined or a is None or b is None:
        return False
    a, b = getattr(a, "value", a), getattr(b, "value", b)
    if isinstance(a, str) != isinstance(b, str) or (isinstance(a, bool) != isinstance(b, bool) and not (is_sym(a) or is_sym(b))):
        return False
    return Eq(a, b) if is_sym(a) or is_sym(b) else a == b


def moment(x):
    x = D.datetime.fromisoformat(x) if isinstance(x, str) else x
    return x.isoformat()


def client(ctx, scheduler, token=None, given=None):
    wire = Wire(ctx, R.create_remote_scheduler_app(scheduler, token=token))
    return R.RemoteSchedulerClient(transport=wire, token=token if given is None else given), wire


CHARS = ["t", "T", " ", "{", ".", "-", "_", "~", "é"]
WHENS = [D.datetime(2024, 2, 3, 4, 5, 6, 7, tzinfo=UTC), D.datetime(2024, 2, 3, 4, 5, tzinfo=D.timezone(D.timedelta(hours=5, minutes=30))), D.datetime(2024, 2, 3, 4, 5), D.datetime(2020, 12, 31, 23, 59, 59, 999999, tzinfo=D.timezone(-D.timedelta(hours=3)))]


def text(ctx, name, n=2):
    return ctx.strlen(name, 1, n, CHARS)


def optional(ctx, name, thunk, absent=undefined):
    """The option is left out, None or given."""
    k = ctx.choice(name + "?", ["omitted", "none", "given"])
    if k == "omitted":
        return {}
    return {name.split(".")[-1]: None if k == "none" else thunk()}


def store(ctx):
    return {"store": text(ctx, "store")} if ctx.flag("store?") else {}


def arg_add_basic(ctx):
    kw = {}
    for n in ("id", "name"):
        kw.update(optional(ctx, n, lambda: text(ctx, n, 3)))
    for n in ("store", "executor"):
        kw.update(optional(ctx, n, lambda: text(ctx, n)))
    if ctx.flag("replace?"):
        kw["replace_existing"] = ctx.bool("replace_existing")
    fn = ctx.choice("fn", ["reference", "callable", "keyword"])
    if fn == "keyword":
        return (), dict(kw, fn=FN, trigger="interval", seconds=5)
    return (FN if fn == "reference" else R.obj_to_ref, "interval"), kw


def arg_add_limits(ctx):
    kw = {}
    kw.update(optional(ctx, "mistrigger_grace_time", lambda: ctx.int("grace", 1, 10 ** 6)))
    kw.update(optional(ctx, "coalesce", lambda: ctx.bool("coalesce")))
    kw.update(optional(ctx, "max_instances", lambda: ctx.int("instances", 1, 10 ** 6)))
    kw.update(optional(ctx, "next_run_time", lambda: ctx.choice("when", [*WHENS, "2024-01-01T00:00:00"])))
    return (FN, "interval"), kw


def arg_add_trigger(ctx):
    kind = ctx.choice("trigger", ["none", "text", "object"])
    kw = {}
    if kind == "text":
        for n in ctx.choice("trigger args", [(), ("seconds",), ("start_at", "jitter"), ("hour", "timezone")]):
            kw[n] = dict(seconds=lambda: ctx.int("seconds", 0, 10 ** 9), start_at=lambda: ctx.choice("start", WHENS), jitter=lambda: ctx.int("jitter", 0, 100) if ctx.flag("jitter?") else None, hour=lambda: text(ctx, "hour", 3), timezone=lambda: "UTC")[n]()
    trigger = dict(none=None, text="cron", object=None)[kind] if kind != "object" else IntervalTrigger(seconds=ctx.choice("every", [1, 7]), timezone=UTC)
    for n in ("args", "kwargs"):
        v = ctx.choice(n, ["omitted", "none", "empty", "some"])
        if v != "omitted":
            kw[n] = None if v == "none" else (() if n == "args" else {}) if v == "empty" else (ctx.int("a0", -10, 10 ** 12), text(ctx, "a1"), [None, ctx.bool("a2")]) if n == "args" else {"k": ctx.int("k0", 0, 5), "n": {"m": text(ctx, "k1")}}
    if ctx.flag("trigger by keyword"):
        kw["trigger"] = trigger
        return (FN,), kw
    return (FN, trigger), kw


def arg_update(ctx):
    kw = store(ctx)
    for n, v in (("name", lambda: text(ctx, "name", 3)), ("coalesce", lambda: ctx.bool("coalesce")), ("max_instances", lambda: ctx.int("instances", -5, 10 ** 6))):
        if ctx.flag(n + "?"):
            kw[n] = v()
    rest = ctx.choice("more", ["nothing", "grace", "args", "run time", "paused"])
    if rest == "grace":
        kw["mistrigger_grace_time"] = ctx.opt("grace", lambda: ctx.int("seconds", -5, 10 ** 6))
    elif rest == "args":
        kw.update(args=(ctx.int("a", 0, 9),), kwargs={"b": text(ctx, "b")}, executor=text(ctx, "executor"), fn=FN)
    elif rest != "nothing":
        kw["next_run_time"] = None if rest == "paused" else ctx.choice("when", WHENS)
    return (tid(ctx),), kw


def tid(ctx):
    return text(ctx, "id", 3)


def arg_run(ctx):
    kw = store(ctx)
    for n in ("force", "remove_finished"):
        if ctx.flag(n + "?"):
            kw[n] = ctx.bool(n)
    return (tid(ctx),), kw


def arg_plain(ctx):
    kw = store(ctx)
    if kw and ctx.flag("positional"):
        return (tid(ctx), kw["store"]), {}
    return (tid(ctx),), kw


def arg_preview(ctx):
    kw = store(ctx)
    if ctx.flag("count?"):
        kw["count"] = ctx.split(ctx.int("count", -2, 60)) if ctx.symbolic else ctx.int("count", -2, 60)
    kw.update(optional(ctx, "now", lambda: ctx.choice("when", WHENS)))
    return (tid(ctx),), kw


def arg_infos(ctx):
    kw = store(ctx)
    if ctx.flag("more"):
        for n in ("executor", "trigger", "q"):
            kw.update(optional(ctx, n, lambda: text(ctx, n, 2)))
    else:
        kw.update(optional(ctx, "schedule_state", lambda: ctx.choice("state", [*TaskScheduleState, "paused"])))
        if ctx.flag("sort?"):
            kw["sort_by"] = text(ctx, "sort_by", 3)
        if ctx.flag("descending?"):
            kw["descending"] = ctx.flag("descending")
    return (), kw


def arg_none(ctx):
    return (), {}


GEN = {
    "add_task: ids": ("add_task", arg_add_basic), "add_task: limits": ("add_task", arg_add_limits), "add_task: trigger": ("add_task", arg_add_trigger), "update_task": ("update_task", arg_update), "run_task": ("run_task", arg_run),
    "pause_task": ("pause_task", arg_plain), "resume_task": ("resume_task", arg_plain), "delete_task": ("delete_task", arg_plain), "get_task_info": ("get_task_info", arg_plain), "get_task": ("get_task", arg_plain), "lookup_task": ("lookup_task", arg_plain),
    "preview_task_runs": ("preview_task_runs", arg_preview), "get_task_infos": ("get_task_infos", arg_infos), "get_scheduler_info": ("get_scheduler_info", arg_none), "get_scheduler_instance_infos": ("get_scheduler_instance_infos", arg_none),
}
READS_ONE = ("get_task_info", "get_task", "lookup_task")


def result(ctx, name):
    i = info(kwargs={"k": [1]}, next_run_time=ctx.choice("next run", [None, WHENS[0], WHENS[1]]), mistrigger_grace_time=ctx.choice("allowed", [None, 3, 1.5]), schedule_state=ctx.choice("schedule", list(TaskScheduleState)))
    if name in ("add_task", "update_task", "pause_task"):
        return Known(i), i
    if name in ("run_task", "resume_task"):
        return (None, None) if ctx.flag("finished") else (Known(i), i)
    if name == "delete_task":
        return None, None
    if name in READS_ONE:
        return (None, None) if ctx.flag("missing") else (i, i)
    if name == "get_task_infos":
        n = ctx.choice("found", [0, 1, 2])
        r = [i, info("t2")][:n]
        return r, r
    if name == "preview_task_runs":
        r = None if ctx.flag("missing") else TaskRunPreview(task=i, timezone="UTC", generated_at=WHENS[1], requested_count=2, run_times=(WHENS[0], WHENS[1]), exhausted=True)
        return r, r
    real = p19.build(ctx, "base", W.Log())
    r = getattr(real, name)()
    return r, r


def calls(ctx, what):
    """The call arrives as it was made, and so does its result."""
    name, gen = GEN[what]
    ctx.fixed_clock(ctx.mkdt(T0) if not ctx.symbolic else NOW)
    full = name in ("get_scheduler_info", "get_scheduler_instance_infos") or ctx.flag("look at the result")
    if full and what.startswith("add_task") and what != "add_task: ids":
        full = False
    if full:
        back, want = result(ctx, name)
        a, kw = ((FN, "interval"), {}) if name == "add_task" else (("t1",), {}) if gen not in (arg_infos, arg_none) else ((), {})
    else:
        i = info()
        back, want = dict(delete_task=(None, None), get_task_infos=([i], [i])).get(name, (i, i) if name in READS_ONE else (Known(i), i) if name in MUTATING else (TaskRunPreview(task=i, timezone="UTC", generated_at=NOW, requested_count=1, run_times=(NOW,), exhausted=False),) * 2)
        a, kw = gen(ctx)
    rec = Recorder({name: back, "get_task_info": back, "lookup_task": back})
    c, wire = client(ctx, rec)
    try:
        got, exc = getattr(c, name)(*a, **kw), None
    except TaskLookupError as e:
        got, exc = None, e
    ctx.check(len(rec.calls) == 1, "%s: the worker's scheduler is asked %d times" % (name, len(rec.calls)))
    seen = rec.calls[0]
    asked = "get_task_info" if name in READS_ONE else name
    ctx.check(seen[0] == asked or name in READS_ONE and seen[0] in READS_ONE, "%s arrives as %s" % (name, seen[0]))
    if seen[0] == "lookup_task":
        ctx.reach("end")
        return
    x, y = bound((seen[0], a, {k[:-6] if k == "store_alias" else k: v for k, v in kw.items()})), bound(seen)
    ctx.check(set(x) == set(y), "%s: other options arrive: %s" % (name, sorted(set(x) ^ set(y))))
    for k in x:
        ctx.check(same(x[k], y[k]), "%s: the option %s arrives changed" % (name, k))
    # the result
    if name == "lookup_task":
        ctx.check((exc is not None) == (want is None), "a lookup does not tell whether the task exists")
        if exc is None:
            ctx.check(got[1] == want.store_alias and got[0].snapshot() == want, "a lookup returns another task")
    else:
        ctx.check(exc is None, "%s fails" % name)
        if want is None:
            ctx.check(got is None, "%s: there is no result" % name)
        elif isinstance(got, R.RemoteTask):
            ctx.check(isinstance(want, TaskInfo) and got.snapshot() == want and got.paused == want.paused and got.pending == want.pending, "%s: the snapshot arrives changed" % name)
            for attr in ("id", "name", "args", "kwargs", "coalesce", "max_instances", "mistrigger_grace_time", "executor", "store_alias", "next_run_time", "submitted"):
                ctx.check(getattr(got, attr) == getattr(want, attr), "%s: the task's %s arrives changed" % (name, attr))
        else:
            ctx.check(type(got) is type(want) and got == want, "%s: the result arrives changed" % name)
    ctx.reach("end")


# ------------------------------------------------------------------ tokens

ENDPOINTS = [("GET", "/info", None, None), ("GET", "/instances", None, None), ("GET", "/tasks", None, {"q": "x"}), ("POST", "/tasks", {"fn": FN, "trigger": "interval", "trigger_args": {"seconds": 5}}, None), ("GET", "/tasks/t1", None, None),
             ("PATCH", "/tasks/t1", {"updates": {"name": "x"}}, None), ("GET", "/tasks/t1/preview", None, {"count": 2})] + [("POST", "/tasks/t1/" + a, {}, None) for a in ("run", "pause", "resume", "remove", "nonsense")]


def tokens(ctx, endpoint, n):
    """The worker's scheduler is reached exactly with its token."""
    method, path, payload, query = ENDPOINTS[endpoint]
    i = info()
    res = {k: Known(i) for k in MUTATING}
    res.update(get_task_info=i, get_task_infos=[i], get_task=Known(i), preview_task_runs=TaskRunPreview(task=i, timezone="UTC", generated_at=NOW, requested_count=1, run_times=(NOW,), exhausted=False), get_scheduler_info=i, get_scheduler_instance_infos=(i,))
    rec = Recorder(res)
    token = ctx.choice("token", [None, "tt", "", "tT"])
    sent = ctx.opt("sent", lambda: ctx.strlen("header", 0, n, CHARS))
    headers = {"content-type": "application/json"}
    if sent is not None:
        headers["x-asyncz-remote-token"] = sent
    wire = Wire(ctx, R.create_remote_scheduler_app(rec, token=token))
    status, body = wire(method, path, payload, headers, query)
    ok = token is None or (False if sent is None else (Eq(sent, token) if ctx.symbolic else sent == token))
    if path.endswith("nonsense"):
        ctx.check(not rec.calls, "an unknown action reaches the scheduler")
        ctx.check(status == 401 if not ctx.symbolic and not ok else status in (401, 404), "an unknown action is not refused")
    elif rec.calls:
        ctx.check(ok, "%s %s reaches the scheduler without its token" % (method, path))
        ctx.check(status == 200, "an authorised request is refused")
        ctx.reach("allowed")
    else:
        ctx.check(Not(ok), "%s %s is refused with the right token" % (method, path))
        ctx.check(status == 401 and "data" not in body, "a request without the token is not answered with 401")
        ctx.reach("refused")
    ctx.reach("end")


# ------------------------------------------------------------------ errors

ERRORS = dict(lookup=lambda: TaskLookupError("t1"), stopped=lambda: SchedulerNotRunningError(), full=lambda: MaximumInstancesError("t1", 3), value=lambda: ValueError("bad value"), type=lambda: TypeError("bad type"), conflict=lambda: ConflictIdError("t1"), key=lambda: KeyError("k"), runtime=lambda: RuntimeError(""), attribute=lambda: AttributeError("no"))
USE = {"add_task": ((FN, "interval"), {}), "update_task": (("t1",), {"name": "x"}), "get_task_infos": ((), {}), "get_scheduler_info": ((), {}), "get_scheduler_instance_infos": ((), {})}


def errors(ctx, name):
    """An error of the worker's scheduler is the error of the call."""
    kind = ctx.choice("error", sorted(ERRORS))
    total = ctx.int("total", 1, 10 ** 6) if kind == "full" else 3
    exc = MaximumInstancesError("t1", total) if kind == "full" else ERRORS[kind]()
    rec = Recorder(fail=exc)
    app = R.create_remote_scheduler_app(rec)
    wire = Wire(ctx, app)

    def transport(*a):
        try:
            return wire(*a)
        except AssertionError:
            raise
        except Exception:
            # the server answers with its error page, which the HTTP path reports (see the instances on broken responses)
            raise R.RemoteSchedulerError("500") from None

    c = R.RemoteSchedulerClient(transport=transport)
    a, kw = USE.get(name, (("t1",), {}))
    try:
        got, e = getattr(c, name)(*a, **kw), None
    except AssertionError:
        raise
    except Exception as x:
        got, e = None, x
    if kind == "lookup" and name in ("get_task", "get_task_info", "lookup_task", "preview_task_runs"):
        # the scheduler answers None instead, see the calls
        ctx.check(got is None, "a missing task is found")
    elif kind == "lookup" and name in MUTATING:
        ctx.check(type(e) is TaskLookupError and (name == "add_task" or "t1" in str(e)), "a missing task is reported as %r" % (e,))
        ctx.reach("missing")
    elif name in MUTATING and kind == "full":
        ctx.check(type(e) is MaximumInstancesError and e.task_id == "t1" and Eq(e.total, total), "an exceeded limit is reported otherwise")
        ctx.reach("mapped")
    elif name in MUTATING and kind in ("stopped", "value"):
        ctx.check(type(e) is type(exc) and (kind == "stopped" or str(e) == str(exc)), "%r is reported as %r" % (exc, e))
        ctx.reach("mapped")
    elif name in MUTATING + ("preview_task_runs", "get_task_infos"):
        ctx.check(type(e) is R.RemoteSchedulerError or isinstance(exc, (ValueError, SchedulerNotRunningError, MaximumInstancesError, TaskLookupError)) and type(e) is type(exc), "%r is reported as %r" % (exc, e))
        if type(e) is R.RemoteSchedulerError and str(exc):
            ctx.check(str(exc).strip("'") in str(e), "the message of the error is lost")
    else:
        ctx.check(e is not None, "an error of the worker goes unnoticed")
    ctx.check(len(rec.calls) == 1, "a failing call is repeated")
    ctx.reach("end")


# ------------------------------------------------------------------ malformed requests through the real application


def asgi(app, method, target, headers, body=b"", root=""):
    """What an ASGI server does with a request; -> (status, body bytes)."""
    path, _, query = target.partition("?")
    sent = []

    async def send(m):
        sent.append(m)

    async def receive():
        return {"type": "http.request", "body": body, "more_body": False}

    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": urllib.parse.unquote(path), "raw_path": path.encode(), "query_string": query.encode(), "root_path": "",
             "headers": [(k.lower().encode(), v.encode("latin-1")) for k, v in headers.items()], "client": ("127.0.0.1", 5), "server": ("worker", 80), "state": {}}
    asyncio.run(app(scope, receive, send))
    return sent[0]["status"], b"".join(m.get("body", b"") for m in sent[1:])


def worker(scheduler, mount, token=None):
    app = R.create_remote_scheduler_app(scheduler, token=token)
    return Lilya(routes=[Include(mount, app=app)]) if mount else app


def build(ctx, **kw):
    log = W.Log()
    s = p19.build(ctx, "base", log, **kw)
    s.hlog = log
    return s


def real_scheduler(ctx, started=True, ids=("t1",), trigger=None, **kw):
    s = build(ctx, **kw)
    if started:
        p19.call(s, "start", True)
    for i in ids:
        s.add_task(FN, trigger or IntervalTrigger(hours=1, timezone=UTC), args=[1], id=i, executor="default")
    return s


BODIES = [b"{", b"[]", b"3", b'"x"', b"\xff\xfe", b"nul", b'{"store": 3}', b'{"updates": 5}', b'{"updates": []}', b'{"updates": {"id": "x"}}', b'{"updates": {"nonsense": 1}}', b'{"updates": {"max_instances": 0}}', b'{"updates": {"fn": "no.such:thing"}}', b'{"updates": {"scheduler": 1}}',
          b'{"updates": {"name": ""}}', b'{"updates": {"args": "x"}}', b'{"updates": {"task_id": "x"}}', b'{"updates": {"executor": 5}}', b'{"updates": {"next_run_time": "never"}}', b'{"updates": {"self": 1}}', b'{"updates": {"store": "x"}}']
ADDS = [b"{", b"[]", b"", b"null", b"{}", b'{"fn": ""}', b'{"fn": null, "trigger": "interval"}', b'{"fn": "nonsense", "trigger": "interval"}', b'{"fn": 5, "trigger": "interval"}', b'{"fn": "json:dumps", "trigger": "nonsense"}', b'{"fn": "json:dumps", "trigger": "interval", "trigger_args": 5}',
        b'{"fn": "json:dumps", "trigger": "interval", "trigger_args": {"nonsense": 1}}', b'{"fn": "json:dumps", "trigger": "interval", "trigger_args": {"seconds": "x"}}', b'{"fn": "json:dumps", "args": [1], "trigger": "interval", "trigger_args": {"id": "x"}, "id": "y"}', b'{"fn": "json:dumps", "trigger_pickle": "x"}', b'{"fn": "json:dumps", "trigger_pickle": "gARLBS4="}',
        b'{"fn": "json:dumps", "args": 5, "trigger": "interval", "trigger_args": {"seconds": 5}}', b'{"fn": "json:dumps", "kwargs": "x", "trigger": "interval", "trigger_args": {"seconds": 5}}', b'{"fn": "json:dumps", "args": [1], "max_instances": 0, "trigger": "interval", "trigger_args": {"seconds": 5}}',
        b'{"fn": "json:dumps", "args": [1], "next_run_time": "never", "trigger": "interval", "trigger_args": {"seconds": 5}}', b'{"fn": "json:dumps", "args": [1], "id": "t1", "trigger": "interval", "trigger_args": {"seconds": 5}}', b'{"fn": "json:dumps", "args": [1], "id": 5, "trigger": "interval", "trigger_args": {"seconds": 5}}']
QUERIES = ["count=x", "count=0", "count=51", "count=-1", "count=1.5", "now=never", "now=5", "count=5&now=2024-01-01T00:00:00%2B99:00"]
LISTS = ["schedule_state=nonsense", "sort_by=nonsense", "schedule_state=paused&sort_by="]


def state(s):
    """Everything a user sees of the tasks."""
    return sorted((t.snapshot().model_dump(mode="json") for t in s.get_tasks()), key=lambda d: str(d["id"]))


def malformed(ctx, kind, mount):
    """A malformed request is refused with a structured error and changes nothing."""
    ctx.fixed_clock(NOW)
    s = real_scheduler(ctx, started=ctx.flag("started"))
    app = worker(s, mount)
    before = state(s)
    pool = dict(update=BODIES, action=BODIES[:7], add=ADDS, preview=QUERIES, list=LISTS)[kind]
    bad = pool[ctx.choice("request", list(range(len(pool))))]
    h = {"content-type": "application/json"}
    if kind == "update":
        target = ctx.choice("task", ["t1", "missing"])
        status, body = asgi(app, "PATCH", mount + "/tasks/" + target, h, bad)
    elif kind == "action":
        action = ctx.choice("action", ["run", "pause", "resume", "remove"])
        status, body = asgi(app, "POST", mount + "/tasks/t1/" + action, h, bad)
    elif kind == "add":
        status, body = asgi(app, "POST", mount + "/tasks", h, bad)
    elif kind == "preview":
        status, body = asgi(app, "GET", mount + "/tasks/t1/preview?" + bad, h)
    else:
        status, body = asgi(app, "GET", mount + "/tasks?" + bad, h)
    harmless = kind == "list" and bad == LISTS[2] or kind == "update" and bad in (BODIES[8],)
    try:
        doc = json.loads(body)
    except ValueError:
        doc = None
    ctx.check(isinstance(doc, dict), "%s %r is not answered with a JSON object but %r" % (kind, bad, body[:60]))
    if status >= 400:
        ctx.check(status < 500 and "data" not in doc and isinstance(doc.get("error"), str) and isinstance(doc.get("message"), str), "%s %r is answered with %s %r" % (kind, bad, status, doc))
        ctx.check(state(s) == before, "a refused request changes a task")
        ctx.reach("refused")
    else:
        ctx.check(harmless or (kind == "add" and bad == ADDS[20] and not s.state), "the malformed request %s %r is accepted" % (kind, bad))
    ctx.reach("end")


# ------------------------------------------------------------------ the real HTTP path


class Opener:
    """urllib.request.urlopen with the worker at the other end."""

    def __init__(self, app):
        self.app, self.requests = app, []

    def __call__(self, request, timeout=None, **kw):
        self.requests.append(request)
        url = urllib.parse.urlsplit(request.full_url)
        target = url.path + ("?" + url.query if url.query else "")
        assert target.isascii() and " " not in target, "the request line is malformed"
        assert not url.fragment and timeout, "no timeout"
        headers = dict(request.header_items())
        data = request.data or b""
        headers["content-length"] = str(len(data))
        headers["host"] = url.netloc
        status, body = asgi(self.app, request.get_method(), target, headers, data)
        if status >= 400:
            raise urllib.error.HTTPError(request.full_url, status, "error", {}, io.BytesIO(body))
        r = http_response(status, body)
        return r


def http_response(status, body):
    class Resp(io.BytesIO):
        pass

    r = Resp(body)
    r.status = r.code = status
    return r


def through(ctx, app, base, token=None):
    """A client whose HTTP requests reach the application."""
    op = Opener(app)
    ctx.opener = op
    return R.RemoteSchedulerClient(base, token=token), op


class Patched:
    """urllib.request.urlopen replaced while the client is used."""

    def __init__(self, op):
        self.op = op

    def __enter__(self):
        self.old = urllib.request.urlopen
        urllib.request.urlopen = self.op

    def __exit__(self, *a):
        urllib.request.urlopen = self.old


NASTY = ["/", "%", "?", "#", " ", "é", "+", "&", "=", "2F", ";", ":", "a", "\\", "\u2028", "\"", "{id}"]


def ids(ctx, k, mount, started):
    """Every task is reached under its own id, whatever its characters, and no other."""
    ctx.fixed_clock(NOW)
    parts = [ctx.choice("part", NASTY) for _ in range(k)]
    i = "".join(parts)
    other = i.split("/")[0] or "x"
    near = {urllib.parse.quote(i), urllib.parse.unquote(i), i + "/run", i + "/", urllib.parse.quote(i, safe=""), other} - {i, "", ".", ".."}
    s = real_scheduler(ctx, started=started, ids=[i, *sorted(near)])
    at = urllib.parse.quote(mount)
    base = ctx.choice("base", ["http://worker:80" + at, "http://worker" + at + "/"])
    c, op = through(ctx, worker(s, mount, token="s3"), base, token="s3")
    op_name = ctx.choice("operation", ["get", "pause", "resume", "run", "update", "remove", "preview", "filter"])
    with Patched(op):
        before = {d["id"]: d for d in state(s)}
        if op_name == "get":
            ctx.check(c.get_task_info(i) == s.get_task_info(i) and c.get_task_info(i).id == i, "the id %r reads another task" % i)
        elif op_name == "pause":
            ctx.check(c.pause_task(i).id == i, "the id %r pauses another task" % i)
        elif op_name == "resume":
            ctx.check(c.resume_task(i).id == i, "the id %r resumes another task" % i)
        elif op_name == "run":
            if started:
                p19.call(s, "resume")
                ctx.check(c.run_task(i).id == i, "the id %r runs another task" % i)
                ctx.check([e for e in s.hlog if e[0] == "run"] == [("run", i)], "the id %r runs something else" % i)
        elif op_name == "update":
            ctx.check(c.update_task(i, name=i, args=[i]).name == i, "the id %r updates another task" % i)
        elif op_name == "remove":
            c.delete_task(i)
        elif op_name == "preview":
            ctx.check(c.preview_task_runs(i, now=WHENS[1]) == s.preview_task_runs(i, now=WHENS[1]), "the id %r previews another task" % i)
        else:
            ctx.check(c.get_task_infos(q=i) == s.get_task_infos(q=i), "the filter %r arrives changed" % i)
        after = {d["id"]: d for d in state(s)}
    ctx.check(set(before) - set(after) == ({i} if op_name == "remove" else set()) and not set(after) - set(before), "%s of %r: another task is removed" % (op_name, i))
    for t in after:
        if t != i:
            ctx.check(before[t] == after[t], "%s of %r changes another task" % (op_name, i))
    ctx.reach(op_name)


class Boom(io.BytesIO):
    def __init__(self, exc):
        super().__init__()
        self.exc = exc
        self.status = 200

    def read(self, *a):
        raise self.exc


CONNECTION = [urllib.error.URLError("refused"), ConnectionResetError("reset"), TimeoutError("slow"), http.client.IncompleteRead(b"x"), http.client.RemoteDisconnected("gone"), http.client.BadStatusLine("x"), OSError(5, "io")]
GARBAGE = [b"<html>", b"", b"{", b"[]", b"null", b"5", b'"x"', b"\xff\xfe", b"{}", b'{"data": 5}', b'{"data": {}}', b'{"data": [5]}', b'{"data": "x"}', b'{"error": 5}', b'{"error": {"a": 1}}']
OPS = {"get_scheduler_info": (), "get_scheduler_instance_infos": (), "get_task_infos": (), "get_task_info": ("t1",), "get_task": ("t1",), "lookup_task": ("t1",), "preview_task_runs": ("t1",), "add_task": (FN, "interval"), "update_task": ("t1",), "run_task": ("t1",), "pause_task": ("t1",), "resume_task": ("t1",), "delete_task": ("t1",)}


def broken(ctx, when):
    """A worker that cannot be reached or answers nonsense is reported as RemoteSchedulerError, never as success."""
    name = ctx.choice("call", list(OPS))
    c = R.RemoteSchedulerClient("http://worker")
    if when == "connection":
        exc = CONNECTION[ctx.choice("failure", list(range(len(CONNECTION))))]
        read = ctx.flag("while reading")

        def op(request, timeout=None):
            if read:
                return Boom(exc)
            raise exc
    elif when == "error page":
        status = ctx.choice("status", [400, 401, 403, 404, 409, 500, 502, 503])
        page = GARBAGE[ctx.choice("page", list(range(len(GARBAGE))))] if not ctx.flag("unreadable") else None

        def op(request, timeout=None):
            raise urllib.error.HTTPError(request.full_url, status, "error", {}, io.BytesIO(page) if page is not None else Boom(OSError("gone")))
    else:
        page = GARBAGE[ctx.choice("page", list(range(9)))]

        def op(request, timeout=None):
            return http_response(200, page)

    with Patched(op):
        try:
            got, e = getattr(c, name)(*OPS[name]), None
        except Exception as x:
            got, e = None, x
    ctx.check(isinstance(e, R.RemoteSchedulerError), "%s: %s is reported as %s" % (name, when, "success" if e is None else type(e).__name__))
    ctx.reach("end")


# ------------------------------------------------------------------ the same history locally and remotely

HIST = ["add", "add same", "add paused", "update", "bad update", "pause", "resume", "run", "remove", "list", "preview", "start", "stop"]


def outcome(f):
    try:
        r = f()
    except Exception as e:
        return "error", type(e).__name__ if isinstance(e, (TaskLookupError, SchedulerNotRunningError, MaximumInstancesError)) or type(e) is ValueError else "other"
    return "ok", r


def norm(r):
    if r is None or isinstance(r, (bool, int, str)):
        return r
    if hasattr(r, "snapshot"):
        r = r.snapshot()
    if hasattr(r, "model_dump"):
        return r.model_dump(mode="json")
    return [norm(x) for x in r]


def perform(ctx, s, ctl, op, when, target, extra):
    if op == "add":
        return outcome(lambda: ctl.add_task("asyncz.utils:obj_to_ref", "interval", args=["a"], id=target, seconds=60, name="n", **extra))
    if op == "add same":
        return outcome(lambda: ctl.add_task("asyncz.utils:obj_to_ref", IntervalTrigger(minutes=1, timezone=UTC), args=["b"], id=target, replace_existing=True))
    if op == "add paused":
        return outcome(lambda: ctl.add_task("asyncz.utils:obj_to_ref", "date", args=["c"], id=target, next_run_time=None, run_at=when, mistrigger_grace_time=None))
    if op == "update":
        return outcome(lambda: ctl.update_task(target, **extra, next_run_time=when))
    if op == "bad update":
        return outcome(lambda: ctl.update_task(target, max_instances=0))
    if op == "pause":
        return outcome(lambda: ctl.pause_task(target))
    if op == "resume":
        return outcome(lambda: ctl.resume_task(target))
    if op == "run":
        return outcome(lambda: ctl.run_task(target, **extra))
    if op == "remove":
        return outcome(lambda: ctl.delete_task(target))
    if op == "list":
        return outcome(lambda: ctl.get_task_infos(**extra))
    if op == "preview":
        return outcome(lambda: ctl.preview_task_runs(target, now=when, **extra))
    if op == "start":
        p19.call(s, "start")
    if op == "stop":
        p19.call(s, "shutdown")
    return "ok", None


def history(ctx, k, first):
    """A history of operations has the same results and effects through the client."""
    ctx.fixed_clock(NOW)
    both = []
    for remote in (False, True):
        s = build(ctx)
        both.append((s, through(ctx, worker(s, ""), "http://worker") if remote else (s, None)))
    for n in range(k):
        op = first if n == 0 else ctx.choice("op", HIST)
        target = "t1" if op in ("list", "start", "stop") else ctx.choice("task", ["t1", "t2/x"])
        when = ctx.choice("when", [WHENS[0], WHENS[1], D.datetime(2023, 5, 5, tzinfo=UTC)]) if op in ("add paused", "update", "preview") else None
        pool = {"add": [{}, {"coalesce": False, "max_instances": 3}, {"mistrigger_grace_time": None}, {"next_run_time": None}], "update": [{}, {"name": "new", "args": ["z"], "kwargs": {}}, {"mistrigger_grace_time": 2.5}], "run": [{}, {"force": False}, {"remove_finished": False}],
                "list": [{}, {"sort_by": "name", "descending": True}, {"schedule_state": TaskScheduleState.PAUSED}, {"q": "t2"}], "preview": [{}, {"count": 2}, {"count": 0}]}.get(op, [{}])
        extra = pool[ctx.choice("options", list(range(len(pool))))]
        res = []
        for s, (ctl, opener) in both:
            if opener is None:
                res.append(perform(ctx, s, ctl, op, when, target, extra))
            else:
                with Patched(opener):
                    res.append(perform(ctx, s, ctl, op, when, target, extra))
        (a, x), (b, y) = res
        ctx.check(a == b and (x == y if a == "error" else norm(x) == norm(y)), "%s: locally %s %r, remotely %s %r" % (op, a, x, b, y))
        ctx.check(state(both[0][0]) == state(both[1][0]), "%s leaves other tasks behind when it is done remotely" % op)
        ctx.check([e for e in both[0][0].hlog if e[0] == "run"] == [e for e in both[1][0].hlog if e[0] == "run"], "%s runs other tasks when it is done remotely" % op)
    ctx.reach("end")


class Thing:
    def __repr__(self):
        return "<thing>"


ODD = [Thing(), b"\xff", float("nan"), float("inf"), {1, 2}, (1, (2,)), D.timedelta(1), {1: 2}, Thing, None, {"a": Thing()}, WHENS[0]]


def arguments(ctx):
    """Tasks of the worker with any arguments are listed, shown and operated."""
    ctx.fixed_clock(NOW)
    s = real_scheduler(ctx, ids=())
    v = ODD[ctx.choice("value", list(range(len(ODD))))]
    s.add_task(print, IntervalTrigger(hours=1, timezone=UTC), id="t1", args=[v] if ctx.flag("positional") else (), kwargs={"sep": v})
    s.add_task(FN, IntervalTrigger(hours=1, timezone=UTC), args=[1], id="t2")
    c, op = through(ctx, worker(s, ""), "http://worker")
    with Patched(op):
        ctx.check([i.id for i in c.get_task_infos()] == [i.id for i in s.get_task_infos()], "a task is not listed")
        ctx.check(c.get_task_info("t1").id == "t1" and c.get_task("t1").name == "print", "a task is not shown")
        ctx.check(c.pause_task("t1").paused, "a task is not paused")
        ctx.check(not c.resume_task("t1").paused, "a task is not resumed")
        ctx.check(c.update_task("t1", name="x").name == "x", "a task is not updated")
        ctx.check(c.preview_task_runs("t1").task.id == "t1", "a task is not previewed")
    ctx.check(same_args(s.get_task("t1"), v), "the arguments of a task changed")
    ctx.reach("end")


def same_args(t, v):
    return t.kwargs["sep"] is v or type(v) is type(t.kwargs["sep"]) and repr(v) == repr(t.kwargs["sep"])


# ------------------------------------------------------------------ the task shown before an update

FIELDS = ("name", "args", "kwargs", "coalesce", "max_instances", "mistrigger_grace_time", "executor")


def anything(*a, **kw):
    """Accepts all arguments; whether they fit the callable is for the worker to say."""


def updates(ctx, field):
    """The preview of an update shows what the worker will make of it."""
    from asyncz.tasks import Task

    ctx.fixed_clock(ctx.mkdt(T0))
    gens = dict(
        name=lambda: ctx.choice("kind", [None, 5, ["x"]]) if ctx.flag("odd") else ctx.strlen("name", 0, 2, CHARS),
        coalesce=lambda: ctx.bool("coalesce") if ctx.flag("flag") else ctx.int("number", 0, 3),
        max_instances=lambda: ctx.choice("kind", [None, "2", 1.0]) if ctx.flag("odd") else ctx.int("instances", -5, 10 ** 6),
        mistrigger_grace_time=lambda: ctx.choice("kind", [None, "2"]) if ctx.flag("odd") else ctx.real("grace", -3, 10 ** 4) if ctx.flag("real") else ctx.int("grace", -3, 10 ** 6),
        args=lambda: ctx.choice("args", ["x", (), [], None, 5]) if ctx.flag("odd") else [ctx.int("a", 0, 9)],
        kwargs=lambda: ctx.choice("kwargs", ["x", {}, None, 5]) if ctx.flag("odd") else {"b": ctx.int("a", 0, 9)},
        executor=lambda: ctx.choice("kind", [None, 5]) if ctx.flag("odd") else text(ctx, "executor"),
        other=lambda: 1,
        id=lambda: ctx.choice("id", ["t1", "t2"]),
        fn=lambda: ctx.choice("fn", ["asyncz.utils:obj_to_ref", "asyncz.utils:ref_to_obj"]),
    )
    ups = {}
    for f in field:
        ups[f] = gens[f]()
    task = Task(id="t1", name="n", fn=FN if "fn" in field else anything, args=[1] if "fn" in field else [], kwargs={}, trigger=IntervalTrigger(seconds=5, timezone=UTC), executor="default", store_alias="default", coalesce=True, max_instances=1, mistrigger_grace_time=1)
    seen = task.snapshot()
    proxy = R.RemoteTask(seen)
    copy = proxy.model_copy()

    def attempt(t):
        try:
            t.update_task(**ups)
        except (TypeError, ValueError, AttributeError) as e:
            return e
        return None

    mine = attempt(copy)
    real = attempt(task)
    ctx.check((mine is None) == (real is None), "the preview %s an update the worker %s (%r, %r)" % ("accepts" if mine is None else "rejects", "accepts" if real is None else "rejects", mine, real))
    ctx.check(proxy.snapshot() == seen, "previewing changes the original")
    if mine is None:
        for f in FIELDS:
            a, b = getattr(copy, f), getattr(task, f)
            ctx.check(same(a, b), "the preview shows another %s" % f)
        if "fn" in field:
            ctx.check(copy.fn_reference == task.snapshot().callable_reference, "the preview shows another callable")
        ctx.reach("accepted")
    else:
        ctx.reach("rejected")


def instances(tier):
    q = tier == "quick"
    out = []
    for what in GEN:
        out.append(dict(name="calls: " + what, fn=calls, params=dict(what=what), reach=["end"], weight=6, opts=dict(STUBBED, seconds=400)))
    for e in range(len(ENDPOINTS)):
        out.append(dict(name="token: %s %s" % ENDPOINTS[e][:2], fn=tokens, params=dict(endpoint=e, n=3), reach=["end"] if e == len(ENDPOINTS) - 1 else ["allowed", "refused"], weight=3, opts=STUBBED))
    for name in OPS:
        out.append(dict(name="errors: " + name, fn=errors, params=dict(name=name), reach=["end"] + (["missing", "mapped"] if name in MUTATING else []), weight=3, opts=STUBBED))
    for kind in ("update", "action", "add", "preview", "list"):
        for mount in ("", "/w/x") if kind in ("update", "preview") else ("",):
            out.append(dict(name="malformed: %s%s" % (kind, " below " + mount if mount else ""), fn=malformed, params=dict(kind=kind, mount=mount), reach=["end", "refused"], weight=5))
    for started in (True, False):
        out.append(dict(name="ids: %s" % ("started" if started else "stopped"), fn=ids, params=dict(k=2, mount="", started=started), reach=["get", "pause", "resume", "run", "update", "remove", "preview", "filter"], weight=9, opts=dict(seconds=500)))
    out.append(dict(name="ids: below a mount", fn=ids, params=dict(k=1 if q else 3, mount="/a b", started=True), reach=["get", "remove"], weight=9, opts=dict(seconds=500)))
    for when in ("connection", "error page", "page"):
        out.append(dict(name="broken worker: " + when, fn=broken, params=dict(when=when), reach=["end"], weight=4, opts=dict(seconds=300)))
    for op in HIST:
        out.append(dict(name="history: %s first" % op, fn=history, params=dict(k=2 if q else 3, first=op), reach=["end"], weight=9, opts=dict(seconds=500)))
    out.append(dict(name="arguments", fn=arguments, params={}, reach=["end"], weight=3))
    for f in (*FIELDS, "other", "id", "fn"):
        out.append(dict(name="preview of an update: " + f, fn=updates, params=dict(field=(f,)), reach=["rejected"] if f in ("other", "id") else ["accepted"], weight=3))
    out.append(dict(name="preview of an update: several", fn=updates, params=dict(field=("name", "coalesce", "max_instances", "mistrigger_grace_time")), reach=["accepted", "rejected"], weight=5))
    return out

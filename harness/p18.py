"""P18 persisted tasks are restored exactly as they were."""
import datetime as _dt
import hashlib as _hashlib
import os as _os

import asyncz.stores.file  # noqa: F401
import asyncz.stores.mongo  # noqa: F401
import asyncz.stores.redis  # noqa: F401
import asyncz.stores.sqlalchemy  # noqa: F401
from harness import backends, fakefs, p14, p15, p16, p17, pickling
from harness import storecheck as S
from harness import world as W
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = ("all attribute values (numbers, instants, texts of up to 3 characters, nested arguments) and all built-in triggers, nested up to two levels, each asked at any instant in a 4-day window (cron: 2 days) with and without a previous run; "
          "every kind of callable; four persistent stores; encryption keys of up to 3 characters; record entity / version / shape / payload arbitrary within 3, 5, 7 or 10 characters")
OUTSIDE = "arguments whose own pickling is lossy; the pickle byte format and AES-CCM themselves (replaced by their contracts: the pickle protocol; decryption succeeds only with the same key and nonce and unmodified text; replays use the real ones)"
ASSUMPTIONS = ["SHA-256 has no collisions", "random.uniform called with the same bounds may return the same value"]

CALLS = []


def rec(*args, **kwargs):
    CALLS.append(("rec", args, kwargs))
    return None


class Base:
    def __init__(self, v=None):
        self.v = v

    def method(self, *args, **kwargs):
        CALLS.append(("Base.method", type(self).__name__, self.v, args, kwargs))

    @classmethod
    def cmethod(cls, *args, **kwargs):
        CALLS.append(("cmethod", cls.__name__, args, kwargs))

    @staticmethod
    def smethod(*args, **kwargs):
        CALLS.append(("smethod", args, kwargs))

    class Inner:
        @classmethod
        def deep(cls, *args, **kwargs):
            CALLS.append(("deep", cls.__name__, args, kwargs))


class Derived(Base):
    def own(self, *args, **kwargs):
        CALLS.append(("own", self.v, args, kwargs))


class Callable_:
    def __init__(self, v=None, *args, **kwargs):
        self.v = v
        CALLS.append(("created", v))

    def __call__(self, *args, **kwargs):
        CALLS.append(("called", self.v, args, kwargs))


STORES = {
    "sqlalchemy": (p14.factory, [("asyncz.stores.sqlalchemy", "pickle", pickling)], []),
    "redis": (p15.factory, [("asyncz.stores.redis", "pickle", pickling)], []),
    "mongo": (p16.factory, [("asyncz.stores.mongo", "pickle", pickling), ("asyncz.stores.mongo", "Binary", lambda x: x)], []),
    "file": (p17.factory, p17.PATCH, []),
}
LO, HI = T0, T0 + 4 * DAY


def steady_random(ctx):
    """random.uniform answers the k-th question of each round with the same value."""
    vals, asked = [], []

    def uniform(a, b):
        k = len(asked)
        asked.append((a, b))
        if k == len(vals):
            vals.append(type(ctx).uniform(ctx, a, b))
        return vals[k]

    ctx.uniform = uniform
    return asked


def ask(ctx, trigger, asked, tz, prev, now):
    del asked[:]
    r = trigger.get_next_trigger_time(tz, prev, now)
    return r, list(asked)


def build(ctx, kind, lo=LO, hi=HI, small=False):
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger
    from asyncz.triggers.shutdown import ShutdownTrigger

    import zoneinfo

    berlin = zoneinfo.ZoneInfo("Europe/Berlin")
    fixed = _dt.timezone(_dt.timedelta(hours=-5, minutes=-30))
    if kind == "date":
        return DateTrigger(run_at=ctx.dt("run_at", lo, hi, UTC))
    if kind == "date naive":
        return DateTrigger(run_at=ctx.dt("run_at", lo, hi, None), timezone=fixed)
    if kind == "date now":
        return DateTrigger(timezone=fixed)
    if kind == "shutdown":
        return ShutdownTrigger()
    if kind.startswith("interval"):
        kw = dict(start_at=ctx.dt("start", lo, hi, None if "naive" in kind else fixed if "fixed" in kind else UTC))
        if "end" in kind:
            kw["end_at"] = ctx.dt("end", lo, hi, None if "naive" in kind else UTC)
        if "jitter" in kind:
            kw["jitter"] = ctx.int("jitter", 0, 100)
        if "tz" in kind:
            kw["timezone"] = fixed
        if "default" in kind:
            del kw["start_at"]
        size = {"long": dict(days=2), "none": {}}.get(kind.split()[-1], dict(hours=1, seconds=7))
        return IntervalTrigger(**size, **kw)
    if kind.startswith("cron"):
        kw = {}
        if "start" in kind:
            kw["start_at"] = ctx.dtf("start", lo, hi, UTC)
        if "end" in kind:
            kw["end_at"] = ctx.dtf("end", lo, hi, UTC)
        if "jitter" in kind:
            kw["jitter"] = ctx.int("jitter", 1, 100)
        spec = {"daily": dict(hour="3", minute="10-50/20"), "range": dict(hour="8-17/3,21", second="7"), "weekday": dict(day_of_week="mon-wed", hour="7"),
                "position": dict(day="1st tue", hour="5"), "last": dict(day="last", month="jan-feb"), "fridays": dict(day="last fri")}[kind.split()[-1]]
        return CronTrigger(timezone=UTC, **spec, **kw)
    if kind.startswith("or") or kind.startswith("and"):
        cls = OrTrigger if kind.startswith("or") else AndTrigger
        parts = {"dates": ["date", "date"], "mixed": ["interval", "date"], "empty": [], "one": ["interval end"], "shutdown": ["date", "shutdown"],
                 "nested": ["date", "nest"]}[kind.split()[-1]]
        subs = []
        for p in parts:
            if p == "nest":
                subs.append((AndTrigger if cls is OrTrigger else OrTrigger)([build(ctx, "date", lo, hi), ShutdownTrigger()]))
            else:
                subs.append(build(ctx, p, lo, hi))
        return cls(subs, **(dict(jitter=ctx.int("jitter", 1, 100)) if "jitter" in kind else {}))
    raise AssertionError(kind)


def make(ctx, s, fn, trigger, rich, **kw):
    from asyncz.tasks import Task

    args = (7, [1, "x"])
    kwargs = dict(k=3)
    grace, limit, coal, nrt = 5, 2, False, None
    name = "the name"
    if rich:
        args = (ctx.int("a0"), [ctx.int("a1"), {"k": (ctx.int("a2"), None)}], ctx.str("a3", 2), ctx.dt("a4", LO, HI, UTC))
        kwargs = {"x": ctx.int("x"), "y": [ctx.bool("y")]}
        g = ctx.choice("grace kind", ["none", "int", "real"])
        grace = None if g == "none" else ctx.int("grace", 1, 86399999999999) if g == "int" else ctx.real("grace", "0.001", 1000)
        limit = ctx.int("limit", 1, None)
        coal = ctx.flag("coalesce")
        name = ctx.str("name", 3)
        nrt = ctx.opt("next", lambda: ctx.dt("next", LO, HI, UTC))
    else:
        nrt = ctx.mkdt(T0 + HOUR)
    d = dict(args=args, kwargs=kwargs, mistrigger_grace_time=grace, max_instances=limit, coalesce=coal, next_run_time=nrt, name=name, executor="ex")
    d.update(kw)
    d = {k: v for k, v in d.items() if v is not Ellipsis}
    return Task(fn, id=d.pop("id", "t-1"), trigger=trigger, scheduler=s, store_alias="default", **d), d


def equal(ctx, a, b):
    """Deep equality of arguments, one boolean."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and And(*[equal(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and And(*[equal(ctx, a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is b
    if isinstance(a, Base) or isinstance(a, Callable_):
        return type(a) is type(b) and equal(ctx, a.v, b.v)
    return Eq(a, b)


def fetch(ctx, store, tid, how, time):
    if how == "lookup":
        return store.lookup_task(tid)
    if how == "list":
        got = store.get_all_tasks()
    else:
        got = store.get_due_tasks(time)
    ctx.check(len(got) == 1, "the stored task is not listed")
    return got[0]


def compare(ctx, s, t, d, tid, same_fn=True):
    ctx.check(t is not None, "the task cannot be restored")
    ctx.check(Eq(t.id, tid), "the id changes")
    ctx.check(t.name == d["name"], "the name changes")
    ctx.check(t.executor == "ex", "the executor changes")
    ctx.check(t.store_alias == "default" and t.scheduler is s, "the task does not belong to its scheduler and store")
    ctx.check(t.pending is False and t.submitted is True, "a stored task is not active")
    g = d["mistrigger_grace_time"]
    ctx.check((t.mistrigger_grace_time is None) == (g is None), "the grace time changes")
    if g is not None:
        ctx.check(Eq(t.mistrigger_grace_time, g), "the grace time changes")
    ctx.check(Eq(t.max_instances, d["max_instances"]), "the instance limit changes")
    ctx.check(t.coalesce is d["coalesce"], "coalescing changes")
    ctx.check(W.same(ctx, t.next_run_time, d["next_run_time"]), "the next run time changes")
    if same_fn:
        ctx.check(equal(ctx, tuple(t.args), tuple(d["args"])), "the positional arguments change")
    ctx.check(equal(ctx, t.kwargs, d["kwargs"]), "the keyword arguments change")


def attributes(ctx, backend, how, again):
    """Every attribute survives storing and restoring, also repeatedly."""
    from asyncz.triggers import DateTrigger

    log = W.Log()
    s = W.scheduler(log)
    ctx.fixed_clock(ctx.mkdt(T0))
    store = STORES[backend][0](ctx, s)
    store.start(s, "default")
    kw = {}
    if how == "due":
        kw["next_run_time"] = ctx.dt("next due", LO, HI, UTC)
    fn = ctx.choice("fn", [rec, "harness.p18:rec"])
    task, d = make(ctx, s, fn, DateTrigger(run_at=_dt.datetime(2030, 1, 1, tzinfo=UTC)), True, **kw)
    store.add_task(task)
    got = fetch(ctx, store, "t-1", how, d["next_run_time"])
    compare(ctx, s, got, d, "t-1")
    ctx.check(got.fn is rec, "the callable changes")
    if again:
        store.update_task(got)
        got = fetch(ctx, store, "t-1", how, d["next_run_time"])
        compare(ctx, s, got, d, "t-1")
        ctx.check(got.fn is rec, "the callable changes")
    ctx.reach("restored")


def identity(ctx, n):
    """The id itself, through the pickle protocol alone."""
    from asyncz.triggers import DateTrigger

    log = W.Log()
    s = W.scheduler(log)
    ctx.fixed_clock(ctx.mkdt(T0))
    tid = ctx.str("id", n)
    task, d = make(ctx, s, rec, DateTrigger(run_at=_dt.datetime(2030, 1, 1, tzinfo=UTC)), False, id=tid)
    import pickle

    p = pickling if ctx.symbolic else pickle
    from asyncz.tasks import Task

    t = p.loads(p.dumps(task))
    ctx.check(isinstance(t, Task), "the type changes")
    ctx.check(Eq(t.id, tid) and t.name == d["name"] and t.fn is rec, "identity changes")
    ctx.reach("restored")


def triggers(ctx, backend, kind, prev, again, days=4):
    """The restored trigger answers every question as the original one."""
    log = W.Log()
    s = W.scheduler(log)
    dt = ctx.dtf if "cron" in kind else ctx.dt
    lo, hi = T0 + 28 * DAY if "cron" in kind else LO, T0 + (28 + days) * DAY if "cron" in kind else HI
    now = dt("now", lo, hi, UTC)
    ctx.fixed_clock(now)
    asked = steady_random(ctx)
    store = STORES[backend][0](ctx, s)
    store.start(s, "default")
    trigger = build(ctx, kind, lo, hi)
    task, d = make(ctx, s, rec, trigger, False)
    p = dt("prev", lo, hi, UTC) if prev else None
    if prev:
        ctx.assume(p <= now)
    want, wasked = ask(ctx, trigger, asked, UTC, p, now)
    store.add_task(task)
    got = store.lookup_task("t-1")
    ctx.check(got is not None, "the task cannot be restored")
    if again:
        store.update_task(got)
        got = store.lookup_task("t-1")
        ctx.check(got is not None, "the task cannot be restored a second time")
    t = got.trigger
    ctx.check(type(t) is type(trigger) and t.alias == trigger.alias, "the trigger changes its kind")
    have, hasked = ask(ctx, t, asked, UTC, p, now)
    ctx.observe("want", want)
    ctx.observe("have", have)
    ctx.check(len(wasked) == len(hasked) and And(*[And(Eq(a, c), Eq(b, e)) for (a, b), (c, e) in zip(wasked, hasked)]), "the restored trigger's jitter differs")
    ctx.check(W.same(ctx, want, have), "the restored trigger continues with other run times")
    if not ctx.symbolic:
        ctx.check(str(t) == str(trigger) and repr(t) == repr(trigger), "the restored trigger describes itself differently")
    ctx.reach("run" if want is not None else "none")


FNS = {
    "function": lambda ctx: rec,
    "text": lambda ctx: "harness.p18:rec",
    "method": lambda ctx: Base(ctx.int("state")).method,
    "inherited method": lambda ctx: Derived(ctx.int("state")).method,
    "own method": lambda ctx: Derived(ctx.int("state")).own,
    "class method": lambda ctx: Base.cmethod,
    "inherited class method": lambda ctx: Derived.cmethod,
    "class method of instance": lambda ctx: Derived(3).cmethod,
    "static method": lambda ctx: Base.smethod,
    "nested class method": lambda ctx: Base.Inner.deep,
    "text of method": lambda ctx: "harness.p18:Base.smethod",
    "class": lambda ctx: Callable_,
    "callable object": lambda ctx: Callable_(ctx.int("state")),
    "bound builtin": lambda ctx: CALLS.append,
    "lambda": lambda ctx: lambda *a, **k: None,
    "local function": lambda ctx: _local(),
    "partial": lambda ctx: __import__("functools").partial(rec, 1),
}


def _local():
    def inner(*a, **k):
        return None

    return inner


def callables(ctx, backend, kind, again):
    """A restored task calls what the original would have called, or storing it is refused."""
    from asyncz.triggers import DateTrigger

    log = W.Log()
    s = W.scheduler(log)
    ctx.fixed_clock(ctx.mkdt(T0))
    store = STORES[backend][0](ctx, s)
    store.start(s, "default")
    fn = FNS[kind](ctx)
    kw = dict(args=(ctx.int("arg"),))
    if kind == "bound builtin":
        kw["kwargs"] = {}
    task, d = make(ctx, s, fn, DateTrigger(run_at=_dt.datetime(2030, 1, 1, tzinfo=UTC)), False, **kw)

    def call(t):
        del CALLS[:]
        t.fn(*t.args, **t.kwargs)
        return list(CALLS)

    want = call(task)
    try:
        store.add_task(task)
    except ValueError:
        ctx.reach("refused")
        ctx.check(kind not in ("function", "text", "method", "own method", "inherited method", "class method", "static method", "nested class method", "text of method", "class"), "an importable callable is refused")
        ctx.check(store.get_all_tasks() == [], "a refused task is stored")
        return
    ctx.reach("restored")
    got = store.lookup_task("t-1")
    compare(ctx, s, got, d, "t-1", same_fn=False)
    if again:
        store.update_task(got)
        got = store.lookup_task("t-1")
        compare(ctx, s, got, d, "t-1", same_fn=False)
    have = call(got)
    ctx.check(len(want) == len(have) and And(*[equal(ctx, a, b) for a, b in zip(want, have)]), "the restored task calls something else")


# ------------------------------------------------------------------------------- encryption

class Cipher:
    def __init__(self, key, nonce, data):
        self.key, self.nonce, self.data = key, nonce, data

    def __radd__(self, nonce):
        return Sealed(nonce, self)

    def __len__(self):
        return 60


class Sealed:
    def __init__(self, nonce, body):
        self.nonce, self.body = nonce, body

    def __len__(self):
        return 73

    def __getitem__(self, k):
        if k == slice(None, 13, None):
            return self.nonce
        if k == slice(13, None, None):
            return self.body
        raise TypeError("unexpected part of the stored bytes")


class InvalidTag(Exception):
    pass


class FakeAES:
    """Authenticated encryption: opens only what was sealed with an equal key and the same nonce."""

    used = []

    def __init__(self, key, tag_length=16):
        self.key = key

    def encrypt(self, nonce, data, aad):
        FakeAES.used.append(nonce)
        return Cipher(self.key, nonce, data)

    def decrypt(self, nonce, data, aad):
        if not isinstance(data, Cipher) or nonce is not data.nonce or aad is not None or not (self.key == data.key):
            raise InvalidTag
        return data.data


class Digest:
    def __init__(self, text):
        self.text = text

    def digest(self):
        return self

    def __eq__(self, o):
        return isinstance(o, Digest) and bool(Eq(self.text, o.text))

    __hash__ = None


class FakeHashlib:
    @staticmethod
    def new(name, data=b""):
        if name != "sha256":
            raise ValueError(name)
        return Digest(data.text if isinstance(data, Encoded) else data.decode())

    @staticmethod
    def sha256(data=b""):
        return FakeHashlib.new("sha256", data)

    def __getattr__(self, n):
        return getattr(_hashlib, n)


class Encoded:
    def __init__(self, text):
        self.text = text


class Key:
    """A configured key: a symbolic text."""

    def __init__(self, text):
        self.text = text

    def __bool__(self):
        return len(self.text) > 0

    def encode(self, *a):
        return Encoded(self.text)


class FakeOs:
    """os with its own environment and random bytes."""

    def __init__(self):
        self.environ = {}
        self.drawn = []

    def urandom(self, n):
        r = _os.urandom(n)
        self.drawn.append(r)
        return r

    def getenv(self, k, d=None):
        return self.environ.get(k, d)

    def __getattr__(self, n):
        return getattr(_os, n)


FOS = FakeOs()


def raw_records(store):
    if hasattr(store, "engine"):
        return [r["state"] for r in store.engine.rows]
    if hasattr(store, "redis"):
        return list(store.redis.data.get(store.tasks_key.encode(), {}).values())
    return [d["state"] for d in store.collection.docs]


def configure(ctx, key):
    if key is None:
        FOS.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
    else:
        FOS.environ["ASYNCZ_STORE_ENCRYPTION_KEY"] = Key(key) if ctx.symbolic else key


def encryption(ctx, backend, first, second):
    """What is written under one key is only restored under the same key."""
    import copy

    from asyncz.triggers import DateTrigger

    alpha = [("a", "z"), "é"]
    log = W.Log()
    s = W.scheduler(log)
    ctx.fixed_clock(ctx.mkdt(T0))
    keys = [None if n is None else ctx.str("key%d" % i, n, alpha) for i, n in enumerate((first, second))]
    configure(ctx, keys[0])
    del FakeAES.used[:]
    store = STORES[backend][0](ctx, s)
    store.start(s, "default")
    task, d = make(ctx, s, rec, DateTrigger(run_at=_dt.datetime(2030, 1, 1, tzinfo=UTC)), False, args=(ctx.int("secret"),))
    store.add_task(task)
    got = store.lookup_task("t-1")
    compare(ctx, s, got, d, "t-1")
    store.update_task(got)
    raw = raw_records(store)
    ctx.check(len(raw) == 1, "not one record")
    active = keys[0] is not None and len(keys[0]) > 0
    if ctx.symbolic:
        ctx.check(isinstance(raw[0], Sealed) == bool(active), "the stored bytes are not encrypted" if active else "the stored bytes are encrypted without a key")
        ctx.check(all(a is not b for i, a in enumerate(FakeAES.used) for b in FakeAES.used[:i]), "a nonce is used twice")
        ctx.check(all(len(n) == 13 for n in FakeAES.used), "nonce length")
    else:
        import pickle

        try:
            pickle.loads(raw[0])
            plain = True
        except Exception:
            plain = False
        ctx.check(plain != active, "the stored bytes are not encrypted")
    configure(ctx, keys[1])
    other = type(store)(**{"sqlalchemy": lambda: dict(database=store.engine), "redis": dict, "mongo": lambda: dict(client=store.client)}[backend]())
    if backend == "redis":
        other.redis = store.redis
    elif backend == "mongo":
        other.collection = store.collection
    other.start(s, "default")
    keep = copy.copy(raw)
    active2 = keys[1] is not None and len(keys[1]) > 0
    same = bool(Eq(keys[0], keys[1])) if active and active2 and len(keys[0]) == len(keys[1]) else active == active2 and not active
    listed = other.get_all_tasks()
    if same:
        ctx.reach("same key")
        ctx.check(len(listed) == 1, "the task is not restored with the key it was written with")
        compare(ctx, s, listed[0], d, "t-1")
    else:
        ctx.reach("other key")
        ctx.check(listed == [], "a record is restored without its key")


# --------------------------------------------------------------------------------- envelope

class SymKeyDict(dict):
    """A dict whose keys may be compared with symbolic texts."""

    def _find(self, k):
        for x in dict.keys(self):
            if len(x) == len(k) and x == k:
                return x
        raise KeyError("?")

    def __getitem__(self, k):
        return dict.__getitem__(self, self._find(k) if type(k) is not str and hasattr(k, "__len__") else k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False


def envelope(ctx, backend, entity, shape, payload, version):
    from asyncz.datastructures import TaskState
    from asyncz.shapes import ShapeRegistry
    from asyncz.stores.persistence import TaskStateEnvelope
    from asyncz.triggers import DateTrigger

    log = W.Log()
    s = W.scheduler(log)
    ctx.fixed_clock(ctx.mkdt(T0))
    if ctx.symbolic and not isinstance(ShapeRegistry._registry, SymKeyDict):
        ShapeRegistry._registry = SymKeyDict(ShapeRegistry._registry)
    store = STORES[backend][0](ctx, s)
    store.start(s, "default")
    task, d = make(ctx, s, rec, DateTrigger(run_at=_dt.datetime(2030, 1, 1, tzinfo=UTC)), False)
    store.add_task(task)
    other, d2 = make(ctx, s, rec, DateTrigger(run_at=_dt.datetime(2030, 1, 1, tzinfo=UTC)), False, id="t-2")
    store.add_task(other)
    state = task.__getstate__()
    ent = "task_state" if entity is None else ctx.str("entity", entity, [("a", "z"), "_"])
    ver = 1 if version == "one" else ctx.int("version") if version == "int" else {"text": "1", "none": None}[version]
    sh = ctx.str("shape", shape, [("a", "z")]) if isinstance(shape, int) else shape
    body = {"state": lambda: state, "none": lambda: None, "text": lambda: "x", "task": lambda: task, "list": lambda: [], "envelope": lambda: TaskStateEnvelope("task_state", 1, "pydantic", state)}[payload.replace("bare ", "")]()
    record = body if payload.startswith("bare ") else TaskStateEnvelope(entity=ent, version=ver, shape=sh, payload=body)
    import pickle

    data = store.conditional_encrypt((pickling if ctx.symbolic else pickle).dumps(record, pickle.HIGHEST_PROTOCOL))
    put_raw(store, "t-1", data)
    registered = ["any", "attrs", "dataclass", "msgspec", "pydantic"]
    if payload == "bare state":
        good = True
    elif payload.startswith("bare "):
        good = False
    else:
        good = And(Eq(ent, "task_state"), Eq(ver, 1) if version in ("one", "int") else False, Or(*[Eq(sh, r) for r in registered if len(r) == len(sh)]), payload == "state")
    ids = sorted(t.id for t in store.get_all_tasks())
    ctx.check("t-2" in ids, "a foreign record affects the others")
    if "t-1" in ids:
        ctx.reach("accepted")
        ctx.check(good, "a foreign record is accepted")
        compare(ctx, s, store.lookup_task("t-1"), d, "t-1")
    else:
        ctx.reach("refused")
        ctx.check(Not(good) if not isinstance(good, bool) else not good, "a valid record is refused")
        ctx.check(store.lookup_task("t-1") is None, "a refused record is returned")


def put_raw(store, tid, data):
    if hasattr(store, "engine"):
        for r in store.engine.rows:
            if r["id"] == tid:
                r["state"] = data
    elif hasattr(store, "redis"):
        store.redis.data[store.tasks_key.encode()][tid.encode()] = data
    else:
        for doc in store.collection.docs:
            if doc["_id"] == tid:
                doc["state"] = data


KINDS = ["date", "date naive", "date now", "shutdown", "interval", "interval naive end", "interval fixed end", "interval jitter", "interval end jitter", "interval naive tz end",
         "interval default", "interval long", "interval none", "or dates", "or mixed", "or jitter mixed", "or shutdown", "or nested", "and dates", "and one", "and jitter dates", "and nested", "and shutdown",
         "or empty", "cron daily", "cron start end daily", "cron jitter range", "cron weekday", "cron position", "cron last", "cron fridays"]


def instances(tier):
    q = tier == "quick"
    out = []
    base = dict(seconds=700 if q else 5000)
    for be, (_, ex, exc) in STORES.items():
        opts = dict(base, extra=ex, extra_concrete=exc)
        for how in ["lookup", "list", "due"]:
            out.append(dict(name="attributes %s %s" % (be, how), fn=attributes, reach=["restored"], params=dict(backend=be, how=how, again=how == "lookup"), opts=opts))
        for kind in FNS:
            if q and be in ("redis", "mongo"):
                continue
            out.append(dict(name="callable %s %s" % (kind, be), fn=callables, reach=[], params=dict(backend=be, kind=kind, again=True), opts=opts))
        if be == "file":
            continue
        eopts = dict(base, extra=ex + [("asyncz.stores.base", "AESCCM", FakeAES), ("asyncz.stores.base", "os", FOS), ("asyncz.stores.base", "hashlib", FakeHashlib())],
                     extra_concrete=[("asyncz.stores.base", "os", FOS)])
        for a, b_ in [(None, None), (None, 2), (2, None), (0, 1), (1, 1), (2, 2), (1, 2)] + ([] if q else [(3, 3), (2, 3)]):
            reach = ["same key"] if (not a and not b_) or a == b_ else []
            if a or b_:
                reach = reach + ["other key"]
            out.append(dict(name="encryption %s %s/%s" % (be, a, b_), fn=encryption, reach=reach, params=dict(backend=be, first=a, second=b_), opts=eopts))
        for entity in (None, 10, 3, 0):
            for shape in ("pydantic", "msgspec", 3, 5, 7, 8):
                if entity is not None and shape not in ("pydantic",):
                    continue
                out.append(dict(name="record %s %s %s" % (be, entity, shape), fn=envelope, reach=["refused"] if entity is not None or shape in (3, 5, 7, 8) else ["accepted", "refused"],
                                params=dict(backend=be, entity=entity, shape=shape, payload="state", version="int"), opts=opts))
        for payload in ["none", "text", "task", "list", "envelope", "bare state", "bare none", "bare text", "bare task", "bare list"]:
            out.append(dict(name="record %s payload %s" % (be, payload), fn=envelope, reach=["accepted" if payload == "bare state" else "refused"],
                            params=dict(backend=be, entity=None, shape="pydantic", payload=payload, version="one"), opts=opts))
        for version in ["text", "none"]:
            out.append(dict(name="record %s version %s" % (be, version), fn=envelope, reach=["refused"],
                            params=dict(backend=be, entity=None, shape="pydantic", payload="state", version=version), opts=opts))
    for n in range(1, 4):
        out.append(dict(name="identity %d" % n, fn=identity, reach=["restored"], params=dict(n=n), opts=base))
    for kind in KINDS:
        for prev in (False, True):
            for be in (["sqlalchemy"] if q or "cron" in kind else list(STORES)):
                out.append(dict(name="trigger %s%s %s" % (kind, " prev" if prev else "", be), fn=triggers, reach=[], weight=10 if "cron" in kind else 1,
                                params=dict(backend=be, kind=kind, prev=prev, again=True, days=2 if q else 4), opts=dict(base, extra=STORES[be][1], window=(2024, 2025) if "cron" in kind else (2019, 2032))))
    return out

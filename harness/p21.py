"""P21 locks and concurrency: one scheduler processes a store at a time, threads don't interfere."""
import contextlib
import copy
import itertools
import os
import shutil
import tempfile

import asyncz.executors.base  # noqa: F401
import asyncz.file_locking  # noqa: F401
import asyncz.locks
import asyncz.schedulers.base  # noqa: F401
import asyncz.stores.memory  # noqa: F401
from harness import interleave as I
from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "lock: up to three processes (quick: two) with one or two operations each, all schedules with up to three (thorough: four) preemptions at system calls; stores: two schedulers of different processes on one store, up to three fire times, own clocks; threads: all pairs of operations on one scheduler (thorough: also triples), all schedules with one (thorough: two) preemptions at any call, assignment or lock operation of the scheduler, the executors and the memory store"
OUTSIDE = "more preemptions and threads; crashes of processes (the kernel releases their locks); Windows' LockFileEx; NFS; concurrent start and shutdown of one scheduler by two threads; changes of a stored task by one process while another one processes it"
ASSUMPTIONS = ["flock excludes other open files of the same inode and is released on close", "CPython switches threads between bytecodes only"]
LO, HI = T0, T0 + 4 * DAY


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="p21-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        yield d
    finally:
        shutil.rmtree(d, True)


def finish(ctx, sim):
    dead = sim.run()
    for t in sim.threads:
        if t.exc is not None and not isinstance(t.exc, I.Kill):
            raise t.exc
    ctx.check(dead is None, "the operations wait for each other for ever")


# -- the lock -------------------------------------------------------------------
def lock(ctx, programs, preemptions):
    with scratch() as d:
        locking(ctx, programs, preemptions, os.path.join(d, "lock"))


def locking(ctx, programs, preemptions, path):
    inside, active, sloppy = [], [], []
    sim = I.Sim(ctx, preemptions)

    def use(p, who, blocking):
        with p.protected(blocking=blocking) as ok:
            if ok:
                inside.append(who)
                ctx.check(len(inside) == 1, "two processes hold the lock at the same time")
                I.point()
                ctx.check(len(inside) == 1, "two processes hold the lock at the same time")
                inside.remove(who)
            return ok

    def process(who, ops):
        p = asyncz.locks.FileLockProtected(path)

        def run():
            for op in ops:
                active.append(who)
                met = len(active) > 1
                sloppy[:] = [(a, True) for a, m in sloppy]
                sloppy.append((who, met))
                if op == "shutdown":
                    p.shutdown()
                else:
                    ok = use(p, who, op == "blocking")
                    if op == "blocking":
                        ctx.check(ok, "a blocking request did not get the lock")
                    met = dict(sloppy)[who]
                    ctx.check(ok or met, "the lock was refused though nobody else used it")
                    ctx.reach("granted" if ok else "refused")
                active.remove(who)
                sloppy[:] = [x for x in sloppy if x[0] != who]

        return run

    for k, ops in enumerate(programs):
        sim.spawn("p%d" % k, process("p%d" % k, ops))
    finish(ctx, sim)
    last = asyncz.locks.FileLockProtected(path)
    ctx.check(use(last, "main", False), "the lock stays taken")
    last.shutdown()
    ctx.check(not os.path.exists(path), "the lock file stays behind")
    ctx.check(use(last, "main", False), "the lock cannot be used after a shutdown")


def local(ctx, cls):
    """The locks between threads: exclusive (or reentrant) and released in every case."""
    p = getattr(asyncz.locks, cls)()
    sim = I.Sim(ctx, 2, ("locks.py",))
    inside = []

    def body(who, blocking, nested, fails):
        def run():
            try:
                with p.protected(blocking=blocking) as ok:
                    if not ok:
                        ctx.check(not blocking, "a blocking request did not get the lock")
                        return
                    inside.append(who)
                    ctx.check(cls == "NullLockProtected" or len(inside) == 1, "two threads hold the lock at the same time")
                    if nested:
                        with p.protected(blocking=False) as again:
                            ctx.check(Eq(again, cls != "LockProtected"), "a nested request is answered wrongly")
                    I.point()
                    ctx.check(cls == "NullLockProtected" or len(inside) == 1, "two threads hold the lock at the same time")
                    inside.remove(who)
                    if fails:
                        raise ValueError("body")
            except ValueError:
                pass

        return run

    for k in range(2):
        sim.spawn("t%d" % k, body(k, ctx.flag("blocking"), ctx.flag("nested"), ctx.flag("fails")))
    finish(ctx, sim)
    with p.protected(blocking=False) as ok:
        ctx.check(ok, "the lock stays taken")
    p.shutdown()
    ctx.reach("end")


# -- processes on a shared store ---------------------------------------------------
class Database:
    def __init__(self):
        self.rows = {}


def shared_store(db, log):
    """A store whose rows live outside the process: every access is a point and returns fresh tasks."""
    from asyncz.exceptions import ConflictIdError, TaskLookupError
    from asyncz.stores.base import BaseStore

    class SharedStore(BaseStore):
        def restore(self, row):
            t = copy.copy(row)
            t.scheduler, t.store_alias = self.scheduler, self.alias
            return t

        def lookup_task(self, task_id):
            I.point()
            row = db.rows.get(task_id)
            return self.restore(row) if row else None

        def get_due_tasks(self, now):
            I.point()
            return [self.restore(r) for r in db.rows.values() if r.next_run_time and r.next_run_time <= now]

        def get_next_run_time(self):
            I.point()
            best = None
            for r in db.rows.values():
                n = r.next_run_time
                if n is not None and (best is None or n < best):
                    best = n
            return best

        def get_all_tasks(self):
            I.point()
            return [self.restore(r) for r in db.rows.values()]

        def save(self, task):
            db.rows[task.id] = copy.copy(task)

        def add_task(self, task):
            I.point()
            if task.id in db.rows:
                raise ConflictIdError(task.id)
            self.save(task)

        def update_task(self, task):
            I.point()
            if task.id not in db.rows:
                raise TaskLookupError(task.id)
            self.save(task)

        def delete_task(self, task_id):
            I.point()
            if task_id not in db.rows:
                raise TaskLookupError(task_id)
            del db.rows[task_id]

        def remove_all_tasks(self):
            I.point()
            db.rows.clear()

    return SharedStore()


def processes(ctx, programs, preemptions, n, stores=1):
    with scratch() as d:
        processing(ctx, programs, preemptions, n, stores, d)


def processing(ctx, programs, preemptions, n, stores, d):
    runs = []
    times = schedule(ctx, "run", n, LO, HI)
    dbs = [Database() for _ in range(stores)]
    nows = {}
    current = []
    waits = []

    def clock(tz=None):
        who = I.me().name if I.me() is not None else "main"
        return nows[who]

    ctx.clock_fn = clock
    log = W.Log()

    def scheduler(k):
        s = W.scheduler(log, identity="s%d" % k, lock_path=os.path.join(d, "lock-{store}"), startup_delay=0)

        class E(type(W.executor(log, "default"))):
            def send_task(self, task, run_times):
                I.point()
                for r in run_times:
                    runs.append((task.id, ctx.us(r)))

        s.add_executor(E(), "default")
        for i, db in enumerate(dbs):
            s.add_store(shared_store(db, log), ["default", "other"][i])
        return s

    names = ["p%d" % k for k in range(len(programs))]
    for w in names:
        nows[w] = ctx.dt("now " + w, LO, HI, UTC)
    nows["main"] = times[0]
    scheds = [scheduler(k) for k in range(len(programs))]
    for s, ops in zip(scheds, programs):
        if ops[0] != "start":
            s.start()
    first = next((s for s, ops in zip(scheds, programs) if ops[0] != "start"), None)
    for i in range(stores):
        first.add_task(W.noop, make_trigger(times, relative=True), id="t%d" % i, store=["default", "other"][i], coalesce=False, mistrigger_grace_time=None, next_run_time=times[0], max_instances=9)
    sim = I.Sim(ctx, preemptions)

    def process(s, ops):
        def run():
            for op in ops:
                if op == "process":
                    waits.append((s, s.process_tasks()))
                else:
                    getattr(s, op)()

        return run

    for w, s, ops in zip(names, scheds, programs):
        sim.spawn(w, process(s, ops))
    finish(ctx, sim)
    for s, w in waits:
        ctx.check(w is not None, "a scheduler that shares its store does not look again")
    if len(waits) > 1:
        ctx.reach("both")
    # a last round by a process that nobody disturbs
    last = scheduler(9)
    last.start()
    nows["main"] = times[-1]
    last.process_tasks()
    for i in range(stores):
        got = [r for t, r in runs if t == "t%d" % i]
        ctx.check(len(got) >= n, "a due run was never submitted")
        ctx.check(len(got) <= n, "a run was submitted by two processes")
        for a, b in zip(got, times):
            ctx.check(Eq(a, ctx.us(b)), "a run was submitted by two processes")
    ctx.reach("end")


# -- threads on one scheduler ----------------------------------------------------------
class World:
    """One scheduler with two tasks; outcome() is what can be observed of it."""

    def __init__(self, ctx, data, started=True):
        from asyncz.executors.base import BaseExecutor
        from asyncz.schedulers.base import BaseScheduler

        self.ctx, self.data = ctx, data
        self.log = log = W.Log()
        self.jobs = jobs = []
        self.sim = None
        world = self

        class E(BaseExecutor):
            def do_send_task(self, task, run_times):
                I.point()
                log.append(("run", task.id, tuple(ctx.us(r) for r in run_times)))
                jobs.append(task.id)

            def shutdown(self, wait=True):
                # waits for the thread that runs a job
                if world.busy is not None and wait:
                    I.point(lambda: world.busy.done)

        self.busy = None
        self.e = E()
        s = self.s = W.scheduler(log, logger_name="asyncz")
        s.add_executor(self.e, "default")
        s.add_store("memory", "default")
        W.listen(s, log)
        if started:
            s.start()
        t1, t2 = data["times"], data["other"]
        s.add_task(W.noop, make_trigger(t1, relative=True), id="a", coalesce=False, mistrigger_grace_time=None, next_run_time=t1[0], max_instances=data["max"])
        s.add_task(W.noop, make_trigger([t2], relative=True), id="b", mistrigger_grace_time=None, next_run_time=t2)
        del log[:]

    def op(self, name):
        s = self.s
        d = self.data

        def trig():
            return make_trigger([d["fresh"]], relative=True)

        ops = dict(
            process=lambda: s.process_tasks(),
            add=lambda: s.add_task(W.noop, trig(), id="c", mistrigger_grace_time=None, next_run_time=d["fresh"]),
            addsame=lambda: s.add_task(W.noop2, trig(), id="a", replace_existing=True, mistrigger_grace_time=None, next_run_time=d["fresh"]),
            addconflict=lambda: s.add_task(W.noop, trig(), id="c", mistrigger_grace_time=None, next_run_time=d["other"]),
            pause=lambda: s.pause_task("a"),
            resume=lambda: s.resume_task("a"),
            run=lambda: s.run_task("a"),
            delete=lambda: s.delete_task("a"),
            update=lambda: s.update_task("a", next_run_time=d["fresh"]),
            rename=lambda: s.update_task("a", name="renamed"),
            reschedule=lambda: s.reschedule_task("a", trigger=trig()),
            list=lambda: sorted(t.id for t in s.get_tasks()),
            removeall=lambda: s.remove_all_tasks(None),
            finish=lambda: self.e.run_task_success("a", []),
            start=lambda: s.start(),
            shutdown=lambda: s.shutdown(),
            halt=lambda: s.pause(),
            go=lambda: s.resume(),
            store=lambda: s.add_store("memory", "second"),
            executor=lambda: s.add_executor(W.executor(self.log, "second"), "second"),
            listen=lambda: W.listen(s, []) and None,
        )
        try:
            r = ops[name]()
        except Exception as e:
            if isinstance(e, (ValueError, KeyError)) or type(e).__module__.startswith("asyncz"):
                return type(e).__name__
            raise
        if name == "list":
            return tuple(r)
        if name in ("process", "add", "addsame", "addconflict", "removeall", "listen"):
            return "ok"
        return "none" if r is None else "ok"

    def outcome(self, results):
        """A flat list of comparable values (symbolic ones included)."""
        s, ctx = self.s, self.ctx
        out = [("results", tuple(results)), ("state", str(s.state))]
        runs = self.log.kinds("run")
        out.append(("runs", tuple(r[1] for r in runs)))
        for r in runs:
            out.append(("times", len(r[2])))
            out += [("time", x) for x in r[2]]
        out.append(("instances", tuple(sorted((k, v) for k, v in self.e.instances.items()))))
        tasks = sorted(s.get_tasks(), key=lambda t: t.id)
        out.append(("tasks", tuple((t.id, t.name, t.fn is W.noop2, t.next_run_time is None, bool(t.pending)) for t in tasks)))
        out += [("next", ctx.us(t.next_run_time)) for t in tasks if t.next_run_time is not None]
        out.append(("stores", tuple(sorted(s.stores)), tuple(sorted(s.executors))))
        out.append(("events", tuple(sorted((int(e.code), str(getattr(e, "task_id", ""))) for _, e in self.log.kinds("event")))))
        if s.stores and str(s.state) != "stopped":
            st = s.stores["default"]
            keys = [(t.id) for t, ts in st.tasks] if hasattr(st, "tasks") else []
            out.append(("index", tuple(sorted(keys)), tuple(sorted(st.tasks_index)) if hasattr(st, "tasks_index") else ()))
        return out


def equal(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        if x[0] in ("time", "next"):
            conds.append(Eq(x[1], y[1]))
        elif x != y:
            return False
    return And(*conds) if conds else True


def threads(ctx, ops, preemptions, started=True, before=(), job=False):
    """Operations of several threads: the outcome is one of some sequential execution."""
    n = 2
    data = dict(times=schedule(ctx, "run", n, LO, HI), other=ctx.mkdt(HI + DAY, UTC), fresh=ctx.dt("fresh", LO, HI, UTC), max=ctx.int("max", 1, 2) if "finish" in [*ops, *before] or ops.count("run") > 1 else 2)
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)

    def prepare():
        w = World(ctx, data, started)
        for o in before:
            w.op(o)
        del w.log[:]
        return w

    w = prepare()
    sim = I.Sim(ctx, preemptions, ("schedulers/base.py", "stores/memory.py", "stores/base.py", "executors/base.py"))
    for k, o in enumerate(ops):
        t = sim.spawn("%d %s" % (k, o), lambda o=o: w.op(o))
        if job and k == 1:
            w.busy = t
    finish(ctx, sim)
    got = w.outcome([t.result for t in sim.threads])
    ctx.reach("end")
    if job:
        # a shutdown takes several steps; it must come to an end, and the operation be answered
        ctx.check(str(w.s.state) == str(type(w.s.state).STATE_STOPPED), "the scheduler is not shut down")
        ctx.check(all(t.done and t.result is not None for t in sim.threads), "an operation is not answered")
        ctx.check(all(t.pending for t in w.s.get_tasks()), "a task is neither stored nor pending after the shutdown")
        return
    ok = []
    for order in itertools.permutations(range(len(ops))):
        v = prepare()
        results = [None] * len(ops)
        for k in order:
            results[k] = v.op(ops[k])
        ok.append(equal(got, v.outcome(results)))
    ctx.check(Or(*ok) if not any(x is True for x in ok) else True, "the outcome of %s in two threads is not the outcome of any order of them" % " and ".join(ops))


OPS = ("process", "add", "addsame", "pause", "resume", "run", "delete", "update", "reschedule", "list", "removeall", "finish")


def instances(tier):
    quick = tier == "quick"
    out = []
    sys_opts = dict(seconds=600 if quick else 4000, extra=I.syscalls(), extra_concrete=I.syscalls())
    N, B, D = "nonblocking", "blocking", "shutdown"
    singles = [N, B, D]
    progs = [p for k in (1, 2) for p in itertools.product(singles, repeat=k) if p != (D, D)]
    for a, b in itertools.combinations_with_replacement(progs, 2):
        if a + b == (D, D) or not (len(a) + len(b) <= (4 if not quick else 3)):
            continue
        out.append(dict(name="lock: %s | %s" % (" ".join(a), " ".join(b)), fn=lock, params=dict(programs=[list(a), list(b)], preemptions=3 if quick else 4), reach=[], weight=len(a) + len(b), opts=sys_opts))
    for tr in itertools.combinations_with_replacement(singles, 3):
        if tr.count(D) < 3:
            out.append(dict(name="lock: %s" % " | ".join(tr), fn=lock, params=dict(programs=[[x] for x in tr], preemptions=2 if quick else 3), reach=[], weight=5, opts=sys_opts))
    thr = I.locks("asyncz.schedulers.base", "asyncz.locks", "asyncz.executors.base", "asyncz.stores.base")
    thr_opts = dict(seconds=800 if quick else 5000, extra=thr, extra_concrete=thr)
    for cls in ("LockProtected", "RLockProtected", "NullLockProtected"):
        out.append(dict(name="local lock: " + cls, fn=local, params=dict(cls=cls), reach=["end"], weight=2, opts=thr_opts))
    for a, b, st in ((("process",), ("process",), 1), (("process",), ("process",), 2), (("process", "shutdown"), ("process",), 1), (("process",), ("start", "process"), 1), (("shutdown",), ("start", "process"), 1), (("process", "process"), ("shutdown",), 1)):
        out.append(dict(name="processes: %s | %s (%d stores)" % (" ".join(a), " ".join(b), st), fn=processes, params=dict(programs=[list(a), list(b)], preemptions=1 if quick else 2, n=2, stores=st), reach=["end"], weight=8, opts=sys_opts))
    pairs = list(itertools.combinations_with_replacement(OPS, 2))
    for a, b in pairs:
        if (a, b) in (("list", "list"), ("finish", "finish")):
            continue
        out.append(dict(name="threads: %s | %s" % (a, b), fn=threads, params=dict(ops=[a, b], preemptions=1 if quick or not {"process", "run"} & {a, b} else 2, before=["run"] if "finish" in (a, b) else []), reach=["end"], weight=6, opts=thr_opts))
    for b in ("add", "addsame", "pause", "resume", "update", "delete", "list", "removeall", "executor", "store"):
        out.append(dict(name="threads: start | %s (pending tasks)" % b, fn=threads, params=dict(ops=["start", b], preemptions=1 if quick else 2, started=False), reach=["end"], weight=6, opts=thr_opts))
    for b in ("add", "addsame", "pause", "resume", "run", "update", "delete", "list", "finish", "listen", "executor", "process"):
        out.append(dict(name="threads: shutdown | running task that does %s" % b, fn=threads, params=dict(ops=["shutdown", b], preemptions=1 if quick else 2, job=True, before=["run"]), reach=["end"], weight=6, opts=thr_opts))
    for a, b in [("add", "addconflict")] + [(x, y) for x in ("halt", "store", "executor", "listen") for y in ("process", "add", "run", "pause")] + [("go", "add")]:
        out.append(dict(name="threads: %s | %s" % (a, b), fn=threads, params=dict(ops=[a, b], preemptions=1 if quick else 2, before=["halt"] if a == "go" else []), reach=["end"], weight=6, opts=thr_opts))
    if not quick:
        for tr in itertools.combinations(("process", "add", "pause", "run", "delete", "update"), 3):
            out.append(dict(name="threads: %s" % " | ".join(tr), fn=threads, params=dict(ops=list(tr), preemptions=1), reach=["end"], weight=9, opts=thr_opts))
    return out

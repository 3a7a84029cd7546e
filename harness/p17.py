"""P17 the file store."""
import asyncz.stores.file  # noqa: F401

from harness import fakefs, pickling
from harness import storecheck as S
from harness import world as W
from symx.ctx import DAY, T0, UTC, And, Eq, Not, Or
from symx.engine import PathAbort
from symx import symstr

BOUNDS = ("every directory of up to three (thorough: four) tasks - any run times with ties, paused or not - and one or two further operations, one unreadable file; "
          "ids of up to three (thorough: five) arbitrary ASCII characters; a crash, an error or another process's read or removal at every file system step of an operation on up to two tasks")
OUTSIDE = "durability after power loss (fsync), file systems without atomic rename, directories changed by other programs, Windows file sharing"
ASSUMPTIONS = ["rename is atomic, flock excludes as documented, buffered data reaches the file when it is flushed or closed", "a dump loads only if it is complete"]
STEPS = 14
PATCH = fakefs.patches(pickling)
CONC = fakefs.patches()


def store_on(fs, s, start=True, **kw):
    from asyncz.stores.file import FileStore

    fakefs.CUR[0] = fs
    store = FileStore(directory=fakefs.ROOT, **kw)
    store.fs = fs
    for k, v in list(vars(store).items()):
        if fs.ctx.symbolic and symstr.symset(v) is not None:
            store.__dict__[k] = symstr.symset(v)
    if start:
        store.start(s, "default")
    return store


def factory(ctx, s):
    """Model file system when symbolic, a real scratch directory when replaying."""
    from asyncz.stores.file import FileStore

    if ctx.symbolic:
        fs = fakefs.FS(ctx)
        fakefs.CUR[0] = fs
        store = FileStore(directory=fakefs.ROOT)
        store.fs = fs
        return store
    import tempfile

    tmp = tempfile.TemporaryDirectory(prefix="p17-")
    store = FileStore(directory=tmp.name)
    store.tmp = tmp
    return store


def corrupt(store, tid):
    if hasattr(store, "fs"):
        store.fs.files[fakefs.ROOT + "/" + tid + ".task"].pieces = [b"garbage"]
    else:
        (store.directory / (tid + ".task")).write_bytes(b"garbage")


def prepare(ctx, n, grid=1, suffix=".task"):
    log = W.Log()
    s = W.scheduler(log)
    now = ctx.dt("now", S.LO, S.HI, UTC, grid)
    ctx.fixed_clock(now)
    fs = fakefs.FS(ctx)
    store = store_on(fs, s, suffix=suffix)
    model = {}
    for k in range(n):
        time = S.any_time(ctx, S.IDS[k], grid)
        store.add_task(S.new_task(ctx, s, S.IDS[k], time))
        model[S.IDS[k]] = (time, "task " + S.IDS[k])
    return s, fs, store, model


def operate(ctx, s, store, op, tid, time):
    if op == "add":
        store.add_task(S.new_task(ctx, s, tid, time, "added"))
    elif op == "update":
        store.update_task(S.new_task(ctx, s, tid, time, "updated"))
    elif op == "delete":
        store.delete_task(tid)
    elif op == "clear":
        store.remove_all_tasks()
    elif op == "lookup":
        store.lookup_task(tid)
    elif op == "list":
        store.get_all_tasks()
    elif op == "due":
        store.get_due_tasks(ctx.mkdt(S.HI) if not ctx.symbolic else ctx.mkdt(S.HI + 0 * ctx.int("zero", 0, 0)))
    else:
        raise AssertionError(op)


def after(op, model, tid, time):
    new = dict(model)
    if op in ("add", "update"):
        new[tid] = (time, "added" if op == "add" else "updated")
    elif op == "delete":
        del new[tid]
    elif op == "clear":
        new = {}
    return new


def content(ctx, store):
    return {t.id: t.name for t in store.get_all_tasks()}


def interrupted(ctx, n, op, how):
    s, fs, store, model = prepare(ctx, n)
    tid = S.IDS[n] if op == "add" else S.IDS[0] if op in ("clear", "list", "due") else ctx.choice("id", S.IDS[:n])
    time = S.any_time(ctx, "new", 1) if op in ("add", "update") else None
    new = after(op, model, tid, time)
    fs.steps = 0
    k = ctx.split(ctx.int("step", 1, STEPS), 64)
    fs.torn = ctx.choice("torn", ["torn", "nothing"])
    if how == "crash":
        fs.crash_at = k
    else:
        fs.fail_at = k
        import errno

        fs.err = errno.EMFILE if op in ("lookup", "list", "due") else errno.ENOSPC
    failed = False
    try:
        operate(ctx, s, store, op, tid, time)
    except fakefs.Crash:
        failed = True
    except OSError as e:
        if not fs.fired:
            raise
        failed = True
    if not fs.fired:
        ctx.reach("complete")
        ctx.check(not failed, "the operation fails without a failure")
    else:
        ctx.reach(how)
    fs.reboot()
    store2 = store_on(fs, s) if how == "crash" else store
    names = content(ctx, store2)
    is_new = names == {k: v[1] for k, v in new.items()}
    partial_clear = op == "clear" and set(names) <= set(model)
    ctx.check(is_new or names == {k: v[1] for k, v in model.items()} or partial_clear, "an interrupted operation loses or damages a task")
    if not failed:
        ctx.check(is_new, "an operation that succeeded has no effect")
    keep = new if is_new else {k: v for k, v in model.items() if k in names}
    S.verify(ctx, store2, keep, None)
    # the store stays usable
    if tid not in keep:
        store2.add_task(S.new_task(ctx, s, tid, None, "again"))
        keep = dict(keep)
        keep[tid] = (None, "again")
    else:
        store2.update_task(S.new_task(ctx, s, tid, None, "again"))
        keep = dict(keep)
        keep[tid] = (None, "again")
    ctx.check(content(ctx, store2) == {k: v[1] for k, v in keep.items()}, "the store cannot be used after an interrupted operation")


def interleaved(ctx, n, op, other):
    """Another process works on the directory between two steps of this one."""
    from asyncz.exceptions import TaskLookupError

    s, fs, store, model = prepare(ctx, n)
    tid = S.IDS[n] if op == "add" else S.IDS[0] if op == "clear" else ctx.choice("id", S.IDS[:n])
    time = S.any_time(ctx, "new", 1) if op in ("add", "update") else None
    new = after(op, model, tid, time)
    store2 = store_on(fs, s)
    fs.steps = 0
    fs.other_at = ctx.split(ctx.int("step", 1, STEPS), 64)
    seen = []

    def act():
        if other == "list":
            seen.append(content(ctx, store2))
        elif other == "lookup":
            t = store2.lookup_task(tid)
            seen.append(t and t.name)
        elif other == "delete":
            try:
                store2.delete_task(tid)
                seen.append(True)
            except TaskLookupError:
                seen.append(False)

    fs.other = act
    lost = False
    try:
        operate(ctx, s, store, op, tid, time)
    except TaskLookupError:
        lost = True
    if not fs.fired:
        ctx.reach("alone")
    else:
        ctx.reach("interleaved")
    fs.reboot()
    old_names, new_names = {k: v[1] for k, v in model.items()}, {k: v[1] for k, v in new.items()}
    final = content(ctx, store)
    if other == "delete" and seen and seen[0]:
        # removed by the other process: before the operation it is unknown, after it it is gone
        del_model = {k: v for k, v in model.items() if k != tid}
        if op == "add":
            ctx.check(final == del_model_names(del_model), "a task removed by another process is back")
        elif op == "update":
            ctx.check(tid not in final, "an update brings back a task which another process removed")
        elif op == "delete":
            ctx.check(tid not in final and lost, "one task is removed twice")
        return
    ctx.check(not lost, "the operation fails although the task exists")
    ctx.check(final == new_names, "a reading process damages the store")
    for x in seen:
        if other == "list":
            ctx.check(x == old_names or x == new_names or (op == "clear" and set(x) <= set(old_names)), "a reading process sees a half-written task")
        elif other == "lookup":
            ctx.check(x == old_names.get(tid) or x == new_names.get(tid), "a reading process sees a half-written task")
    S.verify(ctx, store, new, None)


def del_model_names(m):
    return {k: v[1] for k, v in m.items()}


class Unpicklable:
    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle this")


def unserialisable(ctx, op):
    s, fs, store, model = prepare(ctx, 1)
    tid = "a" if op == "update" else "b"
    t = S.new_task(ctx, s, tid, S.any_time(ctx, "new", 1), "new")
    t.kwargs = dict(x=Unpicklable())
    try:
        if op == "update":
            store.update_task(t)
        else:
            store.add_task(t)
        failed = False
    except Exception:
        failed = True
    ctx.check(failed, "a task that cannot be stored is accepted")
    ctx.reach("refused")
    S.verify(ctx, store, model, None)


def any_id(ctx, op, n, suffix):
    """Whatever the id, only files inside the directory are touched (checked by the file system model)."""
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    s, fs, store, model = prepare(ctx, 1, suffix=suffix)
    tid = ctx.str("id", n, [(chr(0), chr(127))])
    before = dict(fs.files)
    task = S.new_task(ctx, s, "x", None, "added")
    task.id = tid
    known = tid == "a"
    refused = False
    raised = None
    try:
        if op == "add":
            store.add_task(task)
        elif op == "update":
            store.update_task(task)
        elif op == "delete":
            store.delete_task(tid)
        else:
            raised = store.lookup_task(tid)
    except RuntimeError:
        refused = True
    except (ConflictIdError, TaskLookupError) as e:
        raised = e
    fs.reboot()
    if refused:
        ctx.reach("refused")
        plain = And(*[Or(And(c >= "a", c <= "z"), And(c >= "0", c <= "9"), c == "-", c == "_") for c in (tid[i] for i in range(n))]) if n else True
        ctx.check(Not(plain), "a harmless task id is refused")
        ctx.check(fs.files == before, "a refused id changes the store")
        return
    ctx.reach("accepted")
    if op == "add":
        ctx.check(Eq(known, isinstance(raised, ConflictIdError)), "conflict reported for another id")
    elif op == "lookup":
        ctx.check(Eq(known, raised is not None), "a task is found under another id")
    else:
        ctx.check(Eq(Not(known), isinstance(raised, TaskLookupError)), "unknown id accepted")
    left = store.lookup_task("a")
    ctx.check(Eq(left is None, And(known, op == "delete")), "another task is affected")
    if left is not None and op != "update":
        ctx.check(left.name == "task a", "another task is replaced")
    if op == "add" and raised is None:
        ctx.check(len(store.get_all_tasks()) == 2, "the added task is not listed")


def cleanup(ctx, flag):
    s, fs, store, model = prepare(ctx, 2)
    store.cleanup_directory = flag
    store.shutdown()
    fs.reboot()
    if flag:
        ctx.check(not fs.files, "the directory is not removed")
    else:
        store2 = store_on(fs, s)
        S.verify(ctx, store2, model, ctx.dt("probe", S.LO, S.HI, UTC, 1))
    ctx.reach("done")


def instances(tier):
    q = tier == "quick"
    out = S.instances(tier, factory, tops=(3, 4), corrupt=corrupt, lookup_drops=True, extra=PATCH)
    opts = dict(seconds=700 if q else 5000, extra=PATCH, extra_concrete=CONC)
    for n in (1, 2) if q else (1, 2, 3):
        for op in ["add", "update", "delete", "clear"]:
            out.append(dict(name="crash during %s of %d" % (op, n), fn=interrupted, reach=["crash", "complete"], weight=n, params=dict(n=n, op=op, how="crash"), opts=opts))
            for other in ["list", "lookup", "delete"]:
                if op == "clear" and other == "delete":
                    continue
                out.append(dict(name="%s during %s of %d" % (other, op, n), fn=interleaved, reach=["interleaved", "alone"], weight=n,
                                params=dict(n=n, op=op, other=other), opts=opts))
        for op in ["add", "update", "delete", "clear", "lookup", "list", "due"]:
            out.append(dict(name="error during %s of %d" % (op, n), fn=interrupted, reach=["error", "complete"], weight=n, params=dict(n=n, op=op, how="error"), opts=opts))
    for op in ["add", "update"]:
        out.append(dict(name="unserialisable " + op, fn=unserialisable, reach=["refused"], params=dict(op=op), opts=opts))
    for suffix in [".task", ""]:
        for n in range(0 if suffix else 1, 4 if q else 6):
            for op in ["add", "update", "delete", "lookup"]:
                out.append(dict(name="%s any id of %d characters, suffix %r" % (op, n, suffix), fn=any_id, reach=["accepted"] + (["refused"] if n else []), weight=n,
                                params=dict(op=op, n=n, suffix=suffix), opts=opts))
    for flag in (True, False):
        out.append(dict(name="shutdown cleanup=%s" % flag, fn=cleanup, reach=["done"], params=dict(flag=flag), opts=opts))
    return out

"""Explore harness instances, replay counterexamples, write evidence."""
from __future__ import annotations

import gc
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SP = "/opt/venv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def bootstrap():
    sys.dont_write_bytecode = True
    if VENV_SP not in sys.path:
        sys.path.append(VENV_SP)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.path[:] = [p for p in sys.path if p not in ("",)]
    import logging

    logging.disable(logging.CRITICAL)
    import asyncz

    assert os.path.realpath(asyncz.__file__).startswith(os.path.realpath(REPO)), asyncz.__file__


# ---------------------------------------------------------------- function coverage

class Coverage:
    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        self.id = 4
        mon.use_tool_id(self.id, "symx")
        prefix = os.path.realpath(REPO) + "/asyncz/"

        def cb(code, off):
            fn = code.co_filename
            if fn.startswith(prefix):
                self.seen.add(fn[len(prefix):] + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.id, mon.events.PY_START, cb)
        mon.set_events(self.id, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.id, 0)
        mon.register_callback(self.id, mon.events.PY_START, None)
        mon.free_tool_id(self.id)
        return False


# ---------------------------------------------------------------- one instance

def _norm_sym(v, ctx, m):
    """Evaluate an observed (possibly symbolic) value under model m."""
    import z3

    from . import dt as sdt
    from .values import SymAtom, SymBool, SymInt, SymReal

    def ev(t):
        return m.eval(t, model_completion=True)

    if type(v) is sdt.SymDT:
        t = v.wall if v.tz is None else v._utc()
        return ("dt", ev(t).as_long())
    if type(v) is sdt.SymTD:
        return ("td", ev(v.us).as_long())
    if type(v) is SymInt:
        return ev(v.t).as_long()
    if type(v) is SymBool:
        return z3.is_true(ev(v.t))
    if type(v) is SymReal:
        return ("f", round(ev(v.n).as_long() / v.d, 5))
    if type(v) is SymAtom:
        return "id%05d" % ev(v.t).as_long()
    if hasattr(v, "__symnorm__"):
        return v.__symnorm__(ev)
    return _norm_con(v, lambda x: _norm_sym(x, ctx, m))


def _norm_con(v, rec=None):
    import datetime as _d

    from . import dt as sdt

    rec = rec or _norm_con
    if isinstance(v, _d.datetime):
        return ("dt", sdt.to_us(v if v.tzinfo is None else v.astimezone(_d.timezone.utc)))
    if isinstance(v, _d.timedelta):
        return ("td", sdt.td_us(v))
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return ("f", round(v, 5))
    if isinstance(v, (list, tuple)):
        return [rec(x) for x in v]
    if isinstance(v, dict):
        return {str(k): rec(x) for k, x in v.items()}
    return type(v).__name__


def _own_fault(exc):
    """An error raised inside the harness or a stub (an unmodelled use of it), not by the code under test."""
    from . import engine as E

    if isinstance(exc, E.Unsupported):
        return True
    if not isinstance(exc, (AttributeError, TypeError, NameError, NotImplementedError, UnboundLocalError)):
        return False
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(VERIF) + os.sep)


def run_concrete(fn, params, values, seconds=20, extra=()):
    """-> ('ok'|'violated'|'exception'|'timeout'|'abort', message, ctx)"""
    from . import ctx as C
    from . import engine as E

    ctx = C.ConCtx(values)
    C.ACTIVE = ctx
    E.set_current(None)
    with C.installed(False, extra):
        try:
            with E.alarm(seconds):
                fn(ctx, **params)
            return "ok", "", ctx
        except E.Violated as v:
            return "violated", v.msg, ctx
        except E.PathAbort:
            return "abort", "assumption not met", ctx
        except E.PathTimeout as t:
            return "timeout", str(t), ctx
        except Exception as exc:
            kind = "harness" if _own_fault(exc) else "exception"
            return kind, "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc(limit=-8)), ctx
        finally:
            C.ACTIVE = None


def explore(fn, params, opts):
    """Run one harness instance to exhaustion.  Returns a plain dict."""
    from . import ctx as C
    from . import dt as sdt
    from . import engine as E

    t0 = time.time()
    sdt.Window.lo_year, sdt.Window.hi_year = opts.get("window", (2019, 2032))
    eng = E.Engine(query_timeout_ms=opts.get("query_timeout_ms", 60000),
                   max_decisions=opts.get("max_decisions", 3000))
    eng.path_seconds = opts.get("path_seconds", 60)
    deadline = t0 + opts.get("seconds", 600)
    validate = opts.get("validate", 12)
    res = dict(status="ok", violation=None, error=None, validated=0, validate_mismatch=None, samples=[])
    reached = set()
    sample_models = []
    with C.installed(True, opts.get("extra", ())), Coverage() as cov:
        E.set_current(eng)
        try:
            while True:
                eng.begin()
                ctx = C.SymCtx(eng)
                C.ACTIVE = ctx
                cand = None
                try:
                    try:
                        with E.alarm(eng.path_seconds):
                            fn(ctx, **params)
                        if eng.abort is not None:
                            raise eng.abort
                        reached |= ctx.reached
                        if len(sample_models) < validate or (eng.stats["paths"] % 97 == 0 and len(sample_models) < validate * 2):
                            r, m = eng._query()
                            if m is not None:
                                obs = [(k, _norm_sym(v, ctx, m)) for k, v in ctx.observations]
                                sample_models.append((eng.values(m), obs))
                    except E.Control:
                        raise
                    except Exception as exc:
                        # an engine abort swallowed and re-raised as something else?
                        if eng.abort is not None:
                            raise eng.abort from exc
                        if isinstance(exc, E.Unsupported):
                            raise
                        cand = ("exception", "unexpected %s: %s" % (type(exc).__name__, exc),
                                eng.current_values(), traceback.format_exc(limit=-6))
                except E.PathAbort:
                    pass
                except E.Violated as v:
                    cand = ("violated", v.msg, v.values, "")
                except E.PathTimeout as v:
                    eng.abort = None
                    cand = ("timeout", "does not terminate: " + str(v), eng.current_values(), "")
                if cand is not None:
                    res["candidate"] = dict(kind=cand[0], msg=cand[1], values=cand[2], tb=cand[3])
                    res["status"] = "candidate"
                    break
                if not eng.next_path():
                    break
                if time.time() > deadline:
                    res["status"] = "inconclusive"
                    res["error"] = "time budget exhausted after %d paths" % eng.stats["paths"]
                    break
        except E.Inconclusive as exc:
            res["status"] = "inconclusive"
            res["error"] = "inconclusive: %s" % exc
        except Exception as exc:
            res["status"] = "error"
            res["error"] = "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc(limit=-12))
        finally:
            E.set_current(None)
            C.ACTIVE = None
    res["stats"] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in eng.stats.items()}
    res["functions"] = sorted(cov.seen)
    res["reached"] = sorted(reached)
    if res["status"] == "candidate":
        c = res["candidate"]
        if c["values"] is None:
            res["status"] = "error"
            res["error"] = "candidate without a model: " + c["msg"]
        else:
            kind, msg, cctx = run_concrete(fn, params, c["values"], seconds=opts.get("replay_seconds", 20),
                                           extra=opts.get("extra_concrete", ()))
            c["replay"] = kind
            c["replay_msg"] = msg
            if kind in ("violated", "timeout") or (kind == "exception" and c["kind"] in ("exception", "violated")):
                res["status"] = "violation"
                res["violation"] = dict(msg=c["msg"], values=c["values"], replay=kind, replay_msg=msg)
            else:
                res["status"] = "error"
                res["error"] = "counterexample did not reproduce (%s -> %s %s): %s\n%s" % (
                    c["kind"], kind, msg, c["msg"], c["tb"])
    # engine validation: path models through the real code, same observations
    mism = None
    for values, obs in sample_models:
        kind, msg, cctx = run_concrete(fn, params, values, seconds=opts.get("replay_seconds", 20),
                                       extra=opts.get("extra_concrete", ()))
        if kind == "abort":
            mism = ("abort", values, getattr(cctx, "missing", None))
            break
        if kind != "ok":
            mism = (kind, msg, values)
            break
        cobs = [(k, _norm_con(v)) for k, v in cctx.observations]
        if json.dumps(cobs, default=str) != json.dumps(obs, default=str):
            mism = ("observations differ", [x for x in zip(obs, cobs) if json.dumps(x[0], default=str) != json.dumps(x[1], default=str)][:4]
                    or [len(obs), len(cobs)], values)
            break
        res["validated"] += 1
    if mism is not None and res["status"] == "ok":
        if mism[0] in ("violated", "exception", "timeout"):
            # the real code misbehaves on a concrete run although the encoding passed
            res["status"] = "violation"
            res["violation"] = dict(msg="concrete run of a path model: %s" % (mism[1],), values=mism[2],
                                    replay=mism[0], replay_msg=mism[1])
        else:
            res["status"] = "error"
            res["error"] = "engine validation mismatch: %r" % (mism,)
    res["samples"] = [dict(inputs=v, observed=o) for v, o in sample_models[:3]]
    res["wall"] = round(time.time() - t0, 2)
    return res


def _worker(job):
    modname, idx, tier = job
    try:
        mod = importlib.import_module(modname)
        inst = mod.instances(tier)[idx]
        fn, params, opts = inst["fn"], inst.get("params", {}), dict(inst.get("opts", {}))
        r = explore(fn, params, opts)
        r["name"] = inst["name"]
        r["idx"] = idx
        r["known"] = inst.get("known")
        need = set(inst.get("reach", ()))
        missing = need - set(r["reached"])
        if r["status"] == "ok" and missing:
            r["status"] = "error"
            r["error"] = "vacuous: labels never reached on a feasible path: %s" % sorted(missing)
        return r
    except BaseException as exc:  # noqa
        return dict(status="error", name="%s[%d]" % (modname, idx), idx=idx, error="%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()),
                    stats={}, functions=[], reached=[], validated=0, samples=[], wall=0.0)


def _init():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    bootstrap()


def known_findings():
    """KNOWN_FINDINGS.txt -> {(property, key): description}"""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1].startswith("property=") and w[2].startswith("key="):
                out[w[1][9:], w[2][4:]] = w[3]
    except FileNotFoundError:
        pass
    return out


def known_finding(pid, r):
    k = r.get("known")
    return known_findings().get((pid, k)) if k else None


def run_property(pid, modname, tier, out=sys.stdout, only=None, jobs=None):
    bootstrap()
    t0 = time.time()
    mod = importlib.import_module(modname)
    insts = mod.instances(tier)
    order = [i for i in range(len(insts)) if only is None or only in insts[i]["name"]]
    # heavy first
    order.sort(key=lambda i: -insts[i].get("weight", 1))
    results = []
    njobs = min(jobs or int(os.environ.get("VERIF_JOBS", "8")), max(1, len(order)))
    ctxm = mp.get_context("fork")
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200"))
    stop = False
    with ctxm.Pool(njobs, initializer=_init, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_worker, [(modname, i, tier) for i in order], chunksize=1)
        while len(results) < len(order):
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                results.append(dict(status="inconclusive", name="<budget>", error="check budget exhausted", stats={}, functions=[],
                                    reached=[], validated=0, samples=[], wall=0, idx=-1))
                break
            results.append(r)
            if r["status"] == "violation" and known_finding(pid, r) is None:
                break
        pool.terminate()
    return finish(pid, mod, tier, insts, results, time.time() - t0, out, partial=only is not None)


def finish(pid, mod, tier, insts, results, wall, out, partial=False):
    known = [(r, known_finding(pid, r)) for r in results if r["status"] == "violation" and known_finding(pid, r) is not None]
    for r, _ in known:
        r["status"] = "known-finding"
    viol = [r for r in results if r["status"] == "violation"]
    bad = [r for r in results if r["status"] in ("error", "inconclusive")]
    tot = {}
    fns = set()
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
        fns |= set(r.get("functions", ()))
    replay_dir = os.path.join(VERIF, "replays")
    lines = []
    vio_recs = []
    for n, r in enumerate(viol):
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, module=mod.__name__, instance=r["name"], idx=r["idx"], tier=tier,
                           violation=r["violation"]), f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        lines.append("  instance %s: %s" % (r["name"], r["violation"]["msg"]))
        lines.append("  inputs: %s" % json.dumps(r["violation"]["values"], default=str)[:1500])
        lines.append("  replayed on the real code: %s %s" % (r["violation"]["replay"], str(r["violation"]["replay_msg"])[:1500]))
        vio_recs.append(dict(instance=r["name"], what=r["violation"]["msg"], replay=path))
    for n, r in enumerate(bad):
        if n >= 4:
            lines.append("UNDECIDED ... and %d more instances" % (len(bad) - 4))
            break
        lines.append("UNDECIDED instance %s (%s): %s" % (r["name"], r["status"], r["error"]))
    samples = []
    for r in results:
        for s in r.get("samples", ())[:1]:
            samples.append(dict(instance=r["name"], **s))
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level=getattr(mod, "LEVEL", "model_checking"),
        wall_s=round(wall, 2),
        coverage=dict(
            states=int(tot.get("paths", 0)),
            transitions=int(tot.get("decisions", 0) + tot.get("paths", 0)),
            traces_validated_against_impl=int(sum(r.get("validated", 0) for r in results)),
            samples=samples[:12],
            explanation=(
                "Symbolic execution of the real functions of /repo (imported at run time); 'states' counts explored "
                "path classes, 'transitions' the symbolic branch decisions. Every path's assertion was decided by z3 "
                "over all input values of that path within the bounds."),
            functions_encoded=sorted(fns),
            bounds=getattr(mod, "BOUNDS", ""),
            outside_bounds=getattr(mod, "OUTSIDE", ""),
            undecided={r["name"]: str(r["error"])[:300] for r in bad},
            known_findings=[r["name"] for r, _ in known],
            instances=len(insts), instances_run=len(results),
            instances_exhausted=sum(1 for r in results if r["status"] == "ok"),
            paths=tot.get("paths", 0), paths_infeasible=tot.get("aborted", 0),
            assertions_checked=tot.get("checks", 0), assertions_trivial=tot.get("proved_trivially", 0),
            solver_queries=tot.get("queries", 0), sat=tot.get("sat", 0), unsat=tot.get("unsat", 0),
            solver_seconds=tot.get("solver_s", 0),
            reached={r["name"]: r["reached"] for r in results},
            per_instance={r["name"]: dict(status=r["status"], paths=r.get("stats", {}).get("paths"), wall=r.get("wall")) for r in results},
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        violations=vio_recs,
    )
    if not partial:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what), file=out)
    for l in lines:
        print(l, file=out)
    print("%s %s: %d/%d instances exhausted, %s paths, %s assertions, %s queries, %.1f s solver, %.1f s wall, %d traces validated" % (
        pid, tier, sum(1 for r in results if r["status"] == "ok"), len(insts), tot.get("paths", 0), tot.get("checks", 0),
        tot.get("queries", 0), tot.get("solver_s", 0), wall, sum(r.get("validated", 0) for r in results)), file=out)
    out.flush()
    if viol:
        return 1
    if bad and (os.environ.get("VERIF_STRICT") or not any(r["status"] == "ok" for r in results)):
        return 2
    return 0


def replay_file(path):
    bootstrap()
    d = json.load(open(path))
    mod = importlib.import_module(d["module"])
    inst = mod.instances(d["tier"])[d["idx"]]
    assert inst["name"] == d["instance"]
    kind, msg, _ = run_concrete(inst["fn"], inst.get("params", {}), d["violation"]["values"],
                                extra=inst.get("opts", {}).get("extra_concrete", ()))
    print(kind, msg)
    return 0 if kind == "ok" else 1

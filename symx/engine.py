"""Path-enumerating symbolic executor for the real asyncz code.

The real functions of /repo run natively on proxy values (symx.values, symx.dt).
Whenever the code branches on a proxy the engine asks z3 which sides are
feasible under the current path condition, follows one and schedules the other
(depth-first, by re-execution).  `check(cond)` asks z3 for a model of
path-condition AND NOT cond; unsat on every path = the assertion holds for all
values of the symbolic inputs within the declared ranges.
"""
from __future__ import annotations

import signal
import time

import z3


class Control(BaseException):
    """Engine control flow, never caught by `except Exception`."""


class PathAbort(Control):
    pass


class PathTimeout(Control):
    pass


class Violated(Control):
    def __init__(self, msg, values=None):
        super().__init__(msg)
        self.msg = msg
        self.values = values


class Unsupported(Exception):
    """The proxies do not model this operation."""


class Inconclusive(Control):
    pass


_CURRENT = None


def cur():
    if _CURRENT is None:
        raise RuntimeError("no symbolic engine active")
    return _CURRENT


def set_current(e):
    global _CURRENT
    _CURRENT = e


class Engine:
    """One harness instance explored exhaustively (within its bounds)."""

    def __init__(self, query_timeout_ms=30000, max_decisions=4000, path_seconds=60):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.max_decisions = max_decisions
        self.path_seconds = path_seconds
        self.trail = []  # events of the current path
        self.pos = 0
        self.replay_upto = -1
        self.model = None
        self.stats = dict(paths=0, decisions=0, forks=0, queries=0, solver_s=0.0,
                          sat=0, unsat=0, checks=0, proved_trivially=0, aborted=0, concretised=0)
        self.reached = {}
        self.abort = None
        self.vars = {}
        self.counters = {}
        self.notes = []

    # -- solver -----------------------------------------------------------
    def _query(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.sat:
            self.stats["sat"] += 1
        elif r == z3.unsat:
            self.stats["unsat"] += 1
        else:
            self._raise(Inconclusive("solver returned unknown: %s" % self.solver.reason_unknown()))
        return r, m

    def _raise(self, exc):
        self.abort = exc
        raise exc

    def _guard(self):
        if self.abort is not None:
            raise self.abort

    # -- path protocol ----------------------------------------------------
    def begin(self):
        self.pos = 0
        self.abort = None
        self.vars = {}
        self.counters = {}
        self.stats["paths"] += 1

    def next_path(self):
        """Prepare the next path; False when the tree is exhausted."""
        while self.trail:
            ev = self.trail[-1]
            self.solver.pop()
            self.trail.pop()
            if ev["k"] == "d" and ev["alt"]:
                term = ev["term"]
                val = not ev["val"]
                self.solver.push()
                self.solver.add(term if val else z3.Not(term))
                nev = dict(k="d", term=term, val=val, alt=False)
                if "cv" in ev:
                    nev["cv"] = ev["cv"]
                self.trail.append(nev)
                self.model = ev["altmodel"]
                self.replay_upto = len(self.trail)
                return True
        return False

    def _event(self):
        self._guard()
        if self.pos < self.replay_upto:
            ev = self.trail[self.pos]
            self.pos += 1
            return ev
        if self.pos > self.max_decisions:
            self._raise(PathTimeout("more than %d decisions on one path" % self.max_decisions))
        return None

    def _push(self, ev, term=None):
        self.solver.push()
        if term is not None:
            self.solver.add(term)
        self.trail.append(ev)
        self.pos += 1

    def assert_(self, term):
        """Add a definitional constraint / assumption known consistent (fresh var domain)."""
        term = z3.simplify(term) if not isinstance(term, bool) else z3.BoolVal(term)
        if z3.is_true(term):
            return
        ev = self._event()
        if ev is not None:
            if ev["k"] != "a" or not ev["term"].eq(term):
                self._raise(Inconclusive("nondeterministic replay (assume): %s vs %s" % (ev.get("term"), term)))
            return
        if self.model is not None and z3.is_true(self.model.eval(term, model_completion=True)):
            self._push(dict(k="a", term=term), term)
            return
        r, m = self._query(term)
        if r == z3.unsat:
            self.stats["aborted"] += 1
            self._raise(PathAbort())
        self.model = m
        self._push(dict(k="a", term=term), term)

    def decide(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        ev = self._event()
        if ev is not None:
            if ev["k"] != "d" or not ev["term"].eq(term):
                self._raise(Inconclusive("nondeterministic replay (branch): %s vs %s" % (ev.get("term"), term)))
            return ev["val"]
        self.stats["decisions"] += 1
        if self.model is None:
            r, m = self._query()
            if r == z3.unsat:
                self._raise(PathAbort())
            self.model = m
        mv = self.model.eval(term, model_completion=True)
        val = True if z3.is_true(mv) else False if z3.is_false(mv) else None
        if val is None:
            r, m = self._query(term)
            if r == z3.sat:
                val, self.model = True, m
            else:
                val = False
                self._push(dict(k="d", term=term, val=val, alt=False))
                return val
        r, altm = self._query(z3.Not(term) if val else term)
        if r == z3.unsat:
            self._push(dict(k="d", term=term, val=val, alt=False))
            return val
        self.stats["forks"] += 1
        self._push(dict(k="d", term=term, val=val, alt=True, altmodel=altm),
                   term if val else z3.Not(term))
        return val

    def check(self, term, msg):
        term = z3.BoolVal(term) if isinstance(term, bool) else z3.simplify(term)
        ev = self._event()
        if ev is not None:
            if ev["k"] != "c" or ev["msg"] != msg:
                self._raise(Inconclusive("nondeterministic replay (check): %r vs %r" % (ev.get("msg"), msg)))
            return
        self.stats["checks"] += 1
        if z3.is_true(term):
            self.stats["proved_trivially"] += 1
        else:
            r, m = self._query(z3.Not(term))
            if r == z3.sat:
                self._raise(Violated(msg, self.values(m)))
        self._push(dict(k="c", msg=msg))

    def entails(self, term):
        """Does the path condition entail term?  (deterministic on replay)"""
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        ev = self._event()
        if ev is not None:
            if ev["k"] != "e" or not ev["term"].eq(term):
                self._raise(Inconclusive("nondeterministic replay (entails)"))
            return ev["val"]
        r, m = self._query(z3.Not(term))
        val = r == z3.unsat
        self._push(dict(k="e", term=term, val=val))
        return val

    def current_values(self):
        r, m = self._query()
        if r != z3.sat:
            return None
        return self.values(m)

    def values(self, m):
        out = {}
        for name, t in self.vars.items():
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[name] = z3.is_true(v)
            elif z3.is_rational_value(v):
                out[name] = [v.numerator_as_long(), v.denominator_as_long()]
            else:
                out[name] = str(v)
        return out

    def concretize(self, term, limit=64, what="value"):
        """Fork over all feasible values of an integer term."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        self.stats["concretised"] += 1
        for _ in range(limit):
            self._guard()
            # value proposal must be deterministic on replay
            if self.pos < self.replay_upto:
                ev = self.trail[self.pos]
                if ev["k"] != "d" or "cv" not in ev:
                    self._raise(Inconclusive("nondeterministic replay (concretize)"))
                v = ev["cv"]
            else:
                if self.model is None:
                    r, m = self._query()
                    if r == z3.unsat:
                        self._raise(PathAbort())
                    self.model = m
                v = self.model.eval(term, model_completion=True).as_long()
            if self.decide_eq(term, v):
                return v
        self._raise(Inconclusive("more than %d feasible values for a concretised %s" % (limit, what)))

    def decide_eq(self, term, v):
        t = z3.simplify(term == v)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        before = self.pos
        r = self.decide(t)
        if before < len(self.trail):
            self.trail[before]["cv"] = v
        return r

    def var_int(self, name):
        t = z3.Int(name)
        self.vars[name] = t
        return t

    def var_bool(self, name):
        t = z3.Bool(name)
        self.vars[name] = t
        return t

    def var_real(self, name):
        t = z3.Real(name)
        self.vars[name] = t
        return t

    def fresh(self, prefix):
        n = self.counters.get(prefix, 0)
        self.counters[prefix] = n + 1
        return "%s#%d" % (prefix, n)


class alarm:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def h(sig, frm):
            e = _CURRENT
            exc = PathTimeout("no result after %.0f s on one path" % self.seconds)
            if e is not None and hasattr(e, "abort"):
                e.abort = exc
            # re-arm: code that swallows BaseException must not hide the timeout
            signal.setitimer(signal.ITIMER_REAL, 0.5)
            raise exc
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False

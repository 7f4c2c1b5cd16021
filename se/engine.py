"""Path exploration: decisions, feasibility (interval domains + z3), verdicts."""
from __future__ import annotations

import time

import z3

from . import terms as T


class PathEnd(BaseException):
    """Abandon the current path (never caught by code under test)."""


class Infeasible(PathEnd):
    pass


class Cut(PathEnd):
    """A bound of the engine was hit; the path is outside the explored space."""


class PropertyFailed(PathEnd):
    pass


class Stats:
    FIELDS = (
        "paths", "forks", "z3_queries", "z3_unknown", "domain_decisions",
        "verdict_queries", "verdict_discharged", "cuts", "infeasible",
        "replays", "replay_mismatch", "assumes",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.z3_time = 0.0
        self.cut_reasons = {}
        self.mismatch_samples = []

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["z3_time"] = self.z3_time
        d["cut_reasons"] = dict(self.cut_reasons)
        return d

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        self.z3_time += d["z3_time"]
        for k, v in d["cut_reasons"].items():
            self.cut_reasons[k] = self.cut_reasons.get(k, 0) + v


class Engine:
    MAX_DECISIONS = 4000

    def __init__(self):
        self.stats = Stats()
        self.active = False
        self.z3_timeout_ms = 5000
        self.second_solver = None
        self.fresh_counter = 0
        self.reset((), {})

    # ------------------------------------------------------------ lifecycle
    def reset(self, prefix, model):
        self.prefix = prefix
        self.model = dict(model)
        self.trace = []
        self.new = []  # (prefix, model) alternatives found on this path
        self.dom = {}
        self.entangled = set()
        self.cons = []
        self.solver = None
        self.solver_vars = None
        self.decided = {}
        self.failures = []
        self.names = {}
        self.memo = {}

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    # ------------------------------------------------------------ simplify
    def simp(self, c):
        """Decide c by the current domains where possible (no solver)."""
        if c is True or c is False:
            return c
        d = self.decided.get(c)
        if d is not None:
            return d
        op = c.op
        if op == "in":
            v = c.a
            if v.op != "var":
                return c
            d = self.dom.get(v)
            if d is None:
                return c
            r = T.rs_and(d, c.b)
            if not r:
                return False
            if r == d:
                return True
            return c
        if op == "and":
            out = []
            for x in c.a:
                s = self.simp(x)
                if s is False:
                    return False
                if s is not True:
                    out.append(s)
            return T.b_and(*out) if out else True
        if op == "or":
            out = []
            for x in c.a:
                s = self.simp(x)
                if s is True:
                    return True
                if s is not False:
                    out.append(s)
            return T.b_or(*out) if out else False
        if op == "not":
            s = self.simp(c.a)
            if s is True:
                return False
            if s is False:
                return True
            return c
        n = self.decided.get(T.b_not(c))
        if n is not None:
            return not n
        if op in ("eq", "le"):
            return self.simp_lin(c)
        return c

    def simp_lin(self, c):
        t = c.a
        if t.op != "lin":
            return c
        lo = hi = t.b
        for a, k in t.a:
            if a.op != "var":
                return c
            d = self.dom.get(a) or a.b
            l, h = d[0][0], d[-1][1]
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if c.op == "le":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        return c

    # ------------------------------------------------------------ assert
    def _assert(self, c):
        """Add c (already known satisfiable with the model) to the path."""
        if c is True:
            return
        op = c.op
        if op == "and":
            for x in c.a:
                self._assert(self.simp(x) if False else x)
            return
        if op == "in" and c.a.op == "var":
            v = c.a
            d = self.dom.get(v)
            self.dom[v] = T.rs_and(v.b if d is None else d, c.b)
            if self.solver is not None and v in self.solver_vars:
                self.solver.add(T.z(c))
            return
        self.decided[c] = True
        self.cons.append(c)
        for v in T.vars_of(c):
            self.entangled.add(v)
        if self.solver is not None:
            self._solver_add(c)

    def _solver_add(self, c):
        for v in T.vars_of(c):
            self._solver_var(v)
        self.solver.add(T.z(c))

    def _solver_var(self, v):
        if v not in self.solver_vars:
            self.solver_vars.add(v)
            d = self.dom.get(v) or v.b
            self.solver.add(T.z(T.mk("in", v, d)))

    def _get_solver(self):
        s = self.solver
        if s is None:
            s = self.solver = z3.SimpleSolver()
            s.set("timeout", self.z3_timeout_ms)
            self.solver_vars = set()
            for c in self.cons:
                self._solver_add(c)
        return s

    # ------------------------------------------------------------ feasibility
    def feasible(self, c):
        """A model of path ∧ c, or None when unsatisfiable."""
        c = self.simp(c)
        if c is False:
            return None
        if c is True:
            return self.model
        if T.ev(c, self.model):
            return self.model
        m = self._easy(c)
        if m is not None:
            self.stats.domain_decisions += 1
            return m
        return self._z3(c)

    def _easy(self, c):
        op = c.op
        if op == "in" and c.a.op == "var":
            v = c.a
            if v in self.entangled:
                return None
            r = T.rs_and(self.dom.get(v) or v.b, c.b)
            m = dict(self.model)
            m[v.a] = r[0][0]
            return m
        if op == "and":
            m = dict(self.model)
            seen = set()
            for x in c.a:
                if x.op != "in" or x.a.op != "var" or x.a in self.entangled or x.a in seen:
                    return None
                seen.add(x.a)
                r = T.rs_and(self.dom.get(x.a) or x.a.b, x.b)
                if not r:
                    return None
                m[x.a.a] = r[0][0]
            return m
        if op == "or":
            for x in c.a:
                m = self._easy(x)
                if m is not None:
                    return m
        return None

    def _z3(self, c):
        s = self._get_solver()
        for v in T.vars_of(c):
            self._solver_var(v)
        t0 = time.perf_counter()
        s.push()
        s.add(T.z(c))
        r = s.check()
        self.stats.z3_queries += 1
        m = None
        if r == z3.sat:
            zm = s.model()
            m = dict(self.model)
            for v in self.solver_vars:
                x = zm[T.z(v)]
                if x is not None:
                    m[v.a] = x.as_long()
        elif r == z3.unknown:
            self.stats.z3_unknown += 1
            s.pop()
            self.stats.z3_time += time.perf_counter() - t0
            raise Cut("solver-unknown")
        s.pop()
        self.stats.z3_time += time.perf_counter() - t0
        return m

    # ------------------------------------------------------------ branching
    def branch(self, c):
        """Decide c on this path, forking when both sides are possible."""
        c = self.simp(c)
        if c is True or c is False:
            return c
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            self._assert(c if d else T.b_not(c))
            return d
        if pos > self.MAX_DECISIONS:
            raise Cut("decision-limit")
        v = T.ev(c, self.model)
        other = T.b_not(c) if v else c
        m2 = self.feasible(other)
        if m2 is not None:
            self.stats.forks += 1
            self.new.append((tuple(self.trace) + (not v,), m2))
        self.trace.append(v)
        self._assert(c if v else T.b_not(c))
        return v

    def assume(self, c):
        c = self.simp(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.stats.assumes += 1
        m = self.feasible(c)
        if m is None:
            raise Infeasible()
        self.model = dict(m)
        self._assert(c)

    def domain(self, v):
        return self.dom.get(v) or v.b

    def concretize(self, t, cap=64, why=""):
        """Fork over every value of an int term (complete up to cap)."""
        if type(t) is int:
            return t
        if t.op == "lin" and len(t.a) == 1 and t.a[0][0].op == "var":
            (v, k), c = t.a[0], t.b
            return k * self.concretize(v, cap, why) + c
        if t.op == "var":
            while True:
                d = self.domain(t)
                lo = d[0][0]
                if len(d) == 1 and d[0][1] == lo:
                    return lo
                if T.rs_size(d) > cap:
                    raise Cut("concretize:" + why)
                if self.branch(T.mk("in", t, ((lo, lo),))):
                    return lo
        n = 0
        while True:
            pos = len(self.trace)
            v = T.ev(t, self.model)
            c = self.simp(T.b_eq(t, v))
            if c is True:
                return v
            if pos < len(self.prefix):
                # the chosen value is part of the decision record
                v = self.prefix[pos][1]
                c = self.simp(T.b_eq(t, v))
                if c is True:
                    return v
            if c is False:
                raise Cut("concretize-replay")
            if pos < len(self.prefix):
                d = self.prefix[pos]
                self.trace.append(d)
                self._assert(c if d[0] else T.b_not(c))
                if d[0]:
                    return v
            else:
                m2 = self.feasible(T.b_not(c))
                if m2 is not None:
                    self.stats.forks += 1
                    self.new.append((tuple(self.trace) + ((False, v),), m2))
                self.trace.append((True, v))
                self._assert(c)
                return v
            n += 1
            if n > cap:
                raise Cut("concretize:" + why)

    # ------------------------------------------------------------ verdicts
    def require(self, c, label):
        """The verdict query: is there a value on this path violating c?"""
        c = self.simp(c)
        if len(self.trace) < len(self.prefix):
            # already decided on the path this one forked from
            if c is not True and c is not False:
                self._assert(c)
            return
        self.stats.verdict_queries += 1
        if c is True:
            self.stats.verdict_discharged += 1
            return
        if c is False:
            self.failures.append((label, dict(self.model)))
            raise PropertyFailed(label)
        m = self.feasible(T.b_not(c))
        if m is None:
            self.stats.verdict_discharged += 1
            self.decided[c] = True
            return
        self.failures.append((label, dict(m)))
        m = self.feasible(c)
        if m is None:
            raise PropertyFailed(label)
        self.model = dict(m)
        self._assert(c)


ENG = Engine()

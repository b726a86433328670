"""Path explorer: depth-first symbolic execution by deterministic re-execution.

The engine keeps one incremental z3 solver.  Every branch whose condition is
symbolic goes through ``Engine.decide``; the decisions taken so far form the
*trail*.  A path is explored by re-running the harness from the start with the
trail as an oracle; when it ends, the deepest decision whose other side the
solver found satisfiable is flipped.  Exploration of a unit is therefore
exhaustive over all values of the symbolic inputs, within the unit's bounds.
"""
import time
import z3


class Steer(SystemExit):
    """Base of exceptions that end a path (asyncio re-raises SystemExit)."""


class PathAbort(Steer):
    pass


class Violated(Steer):
    pass


class BudgetExceeded(Exception):
    pass


class _D:
    __slots__ = ("taken", "flippable", "model", "pushed", "cond")

    def __init__(self, taken, flippable, model, pushed, cond):
        self.taken = taken
        self.flippable = flippable
        self.model = model
        self.pushed = pushed
        self.cond = cond


class Stats:
    FIELDS = ("paths", "aborted", "decisions", "forced", "queries", "sat", "unsat",
              "unknown", "solver_s", "checks", "proved_checks", "folded_checks")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, query_timeout_ms=30000):
        self.qt = query_timeout_ms
        self.reset([])

    # ------------------------------------------------------------------ setup
    def reset(self, prefix):
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", self.qt)
        self.trail = []
        self.prefix = list(prefix)
        self.pos = 0
        self.model = None
        self.stats = Stats()
        self.inputs = {}
        self.dom = {}
        self.fresh = 0
        self.funcs = set()
        self.active = False
        self.steps = 0
        self.max_steps = 2000000
        self.path_deadline = None
        self.hashes = []
        self.decs = []
        self.pads = []
        self.notes = {}

    def begin_path(self):
        self.pos = 0
        self.inputs = {}
        self.dom = {}
        self.fresh = 0
        self.steps = 0
        self.hashes = []
        self.decs = []
        self.pads = []
        self.active = True

    # ---------------------------------------------------------------- queries
    def _check(self, extra=None):
        t = time.perf_counter()
        self.stats.queries += 1
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            self.stats.sat += 1
            m = self.solver.model()
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if extra is not None:
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        return r, m

    def cur_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            if m is None:
                raise PathAbort("unknown")
            self.model = m
        return self.model

    def fresh_name(self, p="$"):
        self.fresh += 1
        return f"{p}{self.fresh}"

    # --------------------------------------------------------------- branching
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathAbort("step budget")

    def decide(self, e):
        """Branch on z3 Bool ``e``; returns the side taken on this path."""
        if not self.active:
            raise RuntimeError("symbolic branch outside a path")
        self.tick()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        p = self.pos
        self.pos += 1
        if p < len(self.trail):
            d = self.trail[p]
            if d.cond is not None and not d.cond.eq(e):
                raise RuntimeError(f"non-deterministic re-execution: {d.cond} vs {e}")
            return d.taken
        self.stats.decisions += 1
        if p < len(self.prefix):
            taken = self.prefix[p][0]
            self.solver.push()
            self.solver.add(e if taken else z3.Not(e))
            self.trail.append(_D(taken, False, None, True, e))
            self.model = None
            return taken
        m = self.cur_model()
        side = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if side else e
        r, om = self._check(other)
        if r == z3.unsat:
            self.stats.forced += 1
            self.trail.append(_D(side, False, None, False, e))
            return side
        self.solver.push()
        self.solver.add(e if side else z3.Not(e))
        if r == z3.unknown:
            self.notes["unknown_branches"] = self.notes.get("unknown_branches", 0) + 1
        self.trail.append(_D(side, r == z3.sat, om, True, e))
        return side

    def define(self, e):
        """Add a definitional constraint (always satisfiable extension)."""
        p = self.pos
        self.pos += 1
        if p < len(self.trail):
            return
        self.solver.add(e)
        self.trail.append(_D(None, False, None, False, None))
        if p < len(self.prefix):
            self.model = None
        elif self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def assume(self, e):
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort("assume")
        p = self.pos
        self.pos += 1
        if p < len(self.trail):
            if self.trail[p].taken == "abort":
                raise PathAbort("assume")
            return
        if p < len(self.prefix):
            self.solver.add(e)
            self.trail.append(_D(None, False, None, False, None))
            self.model = None
            return
        m = self.cur_model()
        if z3.is_true(m.eval(e, model_completion=True)):
            self.solver.add(e)
            self.trail.append(_D(None, False, None, False, None))
            return
        r, om = self._check(e)
        if r == z3.unsat:
            raise PathAbort("assume")
        self.solver.add(e)
        self.model = om
        self.trail.append(_D(None, False, None, False, None))

    def entails(self, e):
        """Does the path imply ``e``? No branching; the answer is kept in the trail."""
        if z3.is_true(e):
            return True
        p = self.pos
        self.pos += 1
        if p < len(self.trail):
            return self.trail[p].taken
        if p < len(self.prefix):
            r = self.prefix[p][0]
        else:
            r = False
            s = z3.SolverFor("QF_BV")       # first without the path: identities need none of it
            s.set("timeout", 2000)
            s.add(z3.Not(e))
            t = time.perf_counter()
            self.stats.queries += 1
            if s.check() == z3.unsat:
                self.stats.unsat += 1
                r = True
            self.stats.solver_s += time.perf_counter() - t
            if not r and (self.model is None or z3.is_true(self.model.eval(e, model_completion=True))):
                r = self._check(z3.Not(e))[0] == z3.unsat
        self.trail.append(_D(r, False, None, False, None))
        return r

    def valid(self, e):
        """(True, None) if e holds on the whole path; else (False, model)."""
        self.stats.checks += 1
        if z3.is_true(e):
            self.stats.folded_checks += 1
            return True, None
        if z3.is_false(e):
            return False, self.cur_model()
        r, m = self._check(z3.Not(e))
        if r == z3.unsat:
            self.stats.proved_checks += 1
            return True, None
        if r == z3.sat:
            return False, m
        self.notes["unknown_checks"] = self.notes.get("unknown_checks", 0) + 1
        return True, None

    # ------------------------------------------------------------ backtracking
    def backtrack(self):
        """Flip the deepest flippable decision. False when exhausted."""
        self.active = False
        while self.trail:
            d = self.trail[-1]
            if d.flippable:
                self.solver.pop()
                d.taken = not d.taken
                d.flippable = False
                self.solver.push()
                self.solver.add(d.cond if d.taken else z3.Not(d.cond))
                self.model = d.model
                d.model = None
                return True
            self.trail.pop()
            if d.pushed:
                self.solver.pop()
        return False

    def pending_prefixes(self):
        """Prefixes (decision lists) of everything not explored yet."""
        out = []
        for i, d in enumerate(self.trail):
            if d.flippable:
                out.append([[x.taken, self.const_of(x.cond)] for x in self.trail[:i]]
                           + [[not d.taken, self.const_of(d.cond)]])
        return out

    @staticmethod
    def const_of(c):
        if c is not None and c.num_args() == 2:
            for i in (1, 0):
                if z3.is_bv_value(c.arg(i)):
                    return c.arg(i).as_long()
        return None


E = Engine()

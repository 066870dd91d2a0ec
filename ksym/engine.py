"""Path exploration: decisions, path condition, obligations, models."""
import time

import z3


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(BaseException):
    """The code did something the encoding does not model."""


class Inconclusive(BaseException):
    """The solver answered unknown (or a budget ran out)."""


class CheckFailed(BaseException):
    """An obligation is violable on this path; carries nothing, ends the path."""


class Hang(BaseException):
    """The step budget of one path ran out: potential non-termination."""


def is_true(e):
    return z3.is_true(e)


class Stats(object):
    FIELDS = ("paths", "aborted", "decisions", "feasibility_queries",
              "obligations", "discharged", "trivial_obligations",
              "solver_s", "unknown", "checks_concrete")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(d["solver_s"], 3)
        return d


class Engine(object):
    QUERY_TIMEOUT_MS = 60000

    def __init__(self):
        self.stats = Stats()
        self.functions = {}
        self.tick_limit = 400000
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", self.QUERY_TIMEOUT_MS)
        self.worklist = [([], None)]
        self.forced_paths = 0
        self.in_path = False
        self.fail = None
        self.ctx = None
        self.reset_path(([], None))

    # -- per path state -------------------------------------------------
    def reset_path(self, item):
        self.prefix, self.cur = item      # decisions, a model or None
        self.trace = []
        self.memo = {}
        self.valid = {}       # see always()
        self.crcs = {}
        self.gf = {}          # see models.crc32
        self.gf_cols = {}
        self.keep = []
        self.inputs = {}      # name -> ("int"/"bool"/"bytes"/..., term(s))
        self.order = []
        self.tokens = {}
        self.token_syms = []
        self.sym_keys = False
        self.ticks = 0
        self.fresh = 0
        self.dead = None
        self.clock = None
        self.zone = None
        self.notes = []
        self.reached = set()
        self.solver.reset()
        self.solver.set("timeout", self.QUERY_TIMEOUT_MS)

    def die(self, exc):
        self.dead = exc
        raise exc

    def alive(self):
        if self.dead is not None:
            raise self.dead

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            self.die(Hang("step budget exhausted"))

    # -- solver ----------------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
            self.die(Inconclusive("solver: %s" % self.solver.reason_unknown()))
        return r == z3.sat

    def feasible(self, cond):
        self.stats.feasibility_queries += 1
        return self._check(cond)

    def add(self, cond):
        """Asserts cond; the current model is kept while it satisfies it."""
        self.solver.add(cond)
        if self.cur is not None and not self.replaying() and not z3.is_true(
                self.cur.eval(cond, model_completion=True)):
            self.cur = None

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def define(self, var, value, cond):
        """Asserts cond, which fixes var to value(current model)."""
        if self.cur is not None and not self.replaying():
            self.cur.update_value(var, value(self.cur))
        self.solver.add(cond)

    def _remember(self, cond, value):
        self.keep.append(cond)
        self.memo[cond.get_id()] = value

    def fork(self, cond):
        """Decides a z3 Bool; returns a concrete bool for this path."""
        self.alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        hit = self.memo.get(cond.get_id())
        if hit is None:
            hit = self._decide(cond)
            self._remember(cond, hit)
        else:
            # keeps re-execution aligned even if hash-consing differs
            if len(self.trace) < len(self.prefix):
                self.tick()
            self.trace.append(hit)
        return hit != neg

    def always(self, cond):
        """Whether cond is valid on its own, whatever the path: cheaper to
        ask first where it usually is."""
        cond = z3.simplify(cond)
        hit = self.valid.get(cond.get_id())
        if hit is None:
            s = z3.SolverFor("QF_BV")
            s.set("rlimit", 20000)
            s.add(z3.Not(cond))
            t0 = time.time()
            hit = s.check() == z3.unsat
            self.stats.solver_s += time.time() - t0
            self.valid[cond.get_id()] = hit
            self.keep.append(cond)
        return hit

    def _decide(self, cond):
        idx = len(self.trace)
        self.tick()
        if idx < len(self.prefix):
            d = self.prefix[idx]
            if type(d) is tuple:
                self.die(Inconclusive("re-execution diverged"))
            self.trace.append(d)
            self.solver.add(cond if d else z3.Not(cond))
            return d
        self.stats.decisions += 1
        side = z3.is_true(self.model().eval(cond, model_completion=True))
        if self.feasible(z3.Not(cond) if side else cond):
            self.worklist.append((self.trace + [not side],
                                  self.solver.model()))
        self.trace.append(side)
        self.solver.add(cond if side else z3.Not(cond))
        return side

    def assume(self, cond):
        """Restricts the path; cuts it when that is infeasible."""
        self.alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.die(PathAbort("assume(False)"))
        if self.replaying():
            # feasibility already established when this prefix was recorded
            self.solver.add(cond)
            self.trace.append(True)
            return
        self.add(cond)
        self.trace.append(True)
        self.model("assumption infeasible")

    def obligation(self, cond):
        """None when cond holds for every value on this path, else a model."""
        self.alive()
        if len(self.trace) < len(self.prefix):
            return None      # discharged on the path this one branched from
        self.stats.obligations += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            self.stats.trivial_obligations += 1
            return None
        if self._check(z3.Not(cond)):
            return self.solver.model()
        self.stats.discharged += 1
        return None

    def model(self, why="path condition infeasible"):
        if self.cur is None:
            if not self._check():
                self.die(PathAbort(why))
            self.cur = self.solver.model()
        return self.cur

    # -- concretisation ----------------------------------------------------
    def concretise(self, e, signed=True, limit=80):
        """Enumerates, by forking, the feasible values of a BV term."""
        self.alive()
        e = z3.simplify(e)
        n = 0
        while not z3.is_bv_value(e):
            idx = len(self.trace)
            if idx < len(self.prefix):
                # value choice is recorded in the decision trace
                v = self.prefix[idx]
                if type(v) is not tuple:
                    self.die(Inconclusive("re-execution diverged"))
                self.trace.append(v)
            else:
                m = self.model()
                v = ("v", m.eval(e, model_completion=True).as_long())
                self.trace.append(v)
            val = v[1]
            if self.fork(e == z3.BitVecVal(val, e.size())):
                return (z3.BitVecVal(val, e.size()).as_signed_long()
                        if signed else val)
            n += 1
            if n > limit:
                self.die(Unsupported("concretisation of a wide term"))
        return e.as_signed_long() if signed else e.as_long()

    # -- driver ------------------------------------------------------------
    def next_prefix(self):
        if not self.worklist:
            return None
        return self.worklist.pop()


ENGINE = None


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e

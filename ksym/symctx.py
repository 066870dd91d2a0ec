"""Symbolic side of the harness interface."""
import z3

from . import ctx as C
from . import engine as E
from . import models as M
from . import values as V


class SymCtx(C.BaseCtx):
    symbolic = True

    def __init__(self, eng):
        C.BaseCtx.__init__(self)
        self.eng = eng
        self.inputs = []          # (name, value)
        eng.ctx = self

    def alive(self):
        self.eng.alive()

    def _rec(self, name, v):
        self.inputs.append((name, v))
        return v

    def int(self, name, lo, hi):
        name = self.uniq(name)
        if lo == hi:
            return self._rec(name, lo)
        w = max(V.width_of(lo), V.width_of(hi))
        e = z3.BitVec(name, w)
        if lo != -(1 << (w - 1)):
            self.eng.add(e >= V.bv(lo, w))
        if hi != (1 << (w - 1)) - 1:
            self.eng.add(e <= V.bv(hi, w))
        return self._rec(name, V.SymInt(e))

    def bool(self, name):
        name = self.uniq(name)
        return self._rec(name, V.SymBool(z3.Bool(name)))

    def bytes(self, name, n):
        name = self.uniq(name)
        return self._rec(name, V.mkbytes(
            [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]))

    def text(self, name, n):
        """Any text whose UTF-8 form has n bytes."""
        name = self.uniq(name)
        el = [z3.BitVec("%s[%d]" % (name, i), 8) for i in range(n)]
        if n:
            self.eng.add(V.utf8_valid(el))
        return self._rec(name, V.mkstr(el))

    def datetime(self, name, lo, hi):
        return M.SymDateTime(self.int(name, lo, hi),
                             self.int(name + "_us", 0, 999999))

    def timedelta(self, name, lo, hi):
        return M.SymTimedelta(self.int(name, lo, hi),
                              self.int(name + "_us", 0, 999999))

    def split(self, d):
        return d.at

    def set_clock(self, secs):
        self.eng.clock = secs

    def set_zone(self, secs):
        self.eng.zone = secs

    def conc(self, v):
        return v.__index__() if V.is_sym(v) else v

    def assume(self, c):
        self.eng.assume(V.as_bool_term(c))

    def _fail(self, model, msg):
        vals = dict((n, to_json(V.symval(v, model))) for n, v in self.inputs)
        self.eng.fail = {"msg": msg, "inputs": vals}
        self.eng.die(E.CheckFailed(msg))

    def check(self, c, msg):
        m = self.eng.obligation(V.as_bool_term(c))
        if m is not None:
            self._fail(m, msg)

    def eq(self, a, b, msg):
        self.check(V.mkbool(V.deep_eq(a, b)), msg)

    def same(self, a, b):
        return V.mkbool(V.deep_eq(a, b))

    def land(self, *xs):
        return V.land(*xs) if xs else True

    def lor(self, *xs):
        return V.lor(*xs) if xs else False

    def lnot(self, x):
        return V.lnot(x)

    def ite(self, c, a, b):
        """If-then-else over ints without forking."""
        t = V.as_bool_term(c)
        x, y = V._same(V._lift(a), V._lift(b))
        return V.mkint(z3.If(t, x, y))

    def note(self, v):
        self.notes.append(v)

    def sample(self, model):
        return {
            "inputs": dict((n, to_json(V.symval(v, model)))
                           for n, v in self.inputs),
            "notes": [C._plain(untoken(V.symval(v, model), self.eng, model))
                      for v in self.notes],
        }


def untoken(v, eng, model):
    """Replaces the placeholder texts inside an evaluated value."""
    if isinstance(v, str) and "\ue000" in v:
        from .structmodel import TOKEN
        return TOKEN.sub(lambda m: str(V.symval(eng.tokens[m.group(0)],
                                                model)), v)
    if isinstance(v, (list, tuple)):
        return type(v)(untoken(x, eng, model) for x in v)
    if isinstance(v, dict):
        return {untoken(k, eng, model): untoken(x, eng, model)
                for k, x in v.items()}
    return v


def to_json(v):
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, str):
        return v.encode("utf-8").hex()
    return v

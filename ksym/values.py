"""Symbolic proxy values.  Integers are exact (two's complement terms whose
width grows with every operation, so nothing ever wraps)."""
import z3

from . import engine as E

HASH = 0x5EED


def eng():
    return E.ENGINE


def bv(v, w):
    return z3.BitVecVal(v, w)


def _ext(e, w):
    d = w - e.size()
    return z3.SignExt(d, e) if d > 0 else e


def width_of(v):
    return v.bit_length() + 1


def mkint(e):
    """Signed BV term -> python int when constant, else SymInt."""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def as_bool_term(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if type(x) is SymInt:
        return x.e != bv(0, x.e.size())
    raise TypeError("not a boolean: %r" % type(x))


def missing(self, name):
    """What a symbolic value cannot do although the real one could."""
    if hasattr(self.__class__, name) and not name.startswith("__"):
        eng().die(E.Unsupported("%s of a symbolic %s" % (
            name, self.__class__.__name__)))
    raise AttributeError(name)


class SymBool(object):
    __slots__ = ("e",)
    __class__ = property(lambda self: bool)

    __getattr__ = missing

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().fork(self.e)

    def _int(self):
        return mkint(z3.If(self.e, bv(1, 2), bv(0, 2)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "<symbool>"

    def __invert__(self):
        return ~self._int()

    def __and__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return mkbool(z3.And(self.e, as_bool_term(o)))
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return mkbool(z3.Or(self.e, as_bool_term(o)))
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return mkbool(z3.Xor(self.e, as_bool_term(o)))
        return self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return mkbool(self.e == as_bool_term(o))
        return self._int() == o

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o


def lnot(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


def land(*xs):
    return mkbool(z3.And([as_bool_term(x) for x in xs]))


def lor(*xs):
    return mkbool(z3.Or([as_bool_term(x) for x in xs]))


def _lift(o):
    """-> BV term of an int-like operand, or None."""
    t = type(o)
    if t is SymInt:
        return o.e
    if t is int:
        return bv(o, width_of(o))
    if t is bool:
        return bv(int(o), 2)
    if t is SymBool:
        return z3.If(o.e, bv(1, 2), bv(0, 2))
    if isinstance(o, int):          # IntEnum and friends
        return bv(int(o), width_of(int(o)))
    return None


def _same(a, b, extra=0):
    w = max(a.size(), b.size()) + extra
    return _ext(a, w), _ext(b, w)


class SymInt(object):
    __slots__ = ("e", "tok", "flip")
    __class__ = property(lambda self: int)

    __getattr__ = missing

    def __init__(self, e):
        self.e = e
        self.tok = None
        self.flip = None        # (x, 2 ** k) when this is x ^ 2 ** k

    # comparisons
    def _cmp(self, o, f, exact_other):
        if type(o) is SymRat:
            return NotImplemented
        if type(o) is float:
            if o != o or o in (float("inf"), float("-inf")):
                return exact_other
            n, d = o.as_integer_ratio()
            return f_apply(f, self * d, n)
        b = _lift(o)
        if b is None:
            return NotImplemented
        a, b = _same(self.e, b)
        return mkbool(f(a, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, o == float("inf"))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, o == float("inf"))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, o == float("-inf"))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, o == float("-inf"))

    def __bool__(self):
        return eng().fork(self.e != bv(0, self.e.size()))

    def __hash__(self):
        return HASH

    # arithmetic
    def _bin(self, o, f, extra):
        b = _lift(o)
        if b is None:
            return NotImplemented
        a, b = _same(self.e, b, extra)
        return mkint(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if self.flip is not None and type(o) is int and o == self.flip[1]:
            # (x ^ 2 ** k) - 2 ** k sign-extends an x of k + 1 bits
            x, k = self.flip[0], o.bit_length() - 1
            w = x.size()
            if w > k + 1 and z3.is_true(z3.simplify(
                    z3.Extract(w - 1, k + 1, x) == 0)):
                return mkint(z3.Extract(k, 0, x))
        return self._bin(o, lambda a, b: a - b, 1)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, 1)

    def __mul__(self, o):
        if type(o) in (bytes, str, list, tuple):
            return o * self.__index__()
        b = _lift(o)
        if b is None:
            return NotImplemented
        w = self.e.size() + b.size()
        return mkint(_ext(self.e, w) * _ext(b, w))

    __rmul__ = __mul__

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b, 0)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b, 0)

    __ror__ = __or__

    def __xor__(self, o):
        r = self._bin(o, lambda a, b: a ^ b, 0)
        if type(r) is SymInt and type(o) is int and o > 0 and \
                o & (o - 1) == 0:
            r.flip = self.e, o
        return r

    __rxor__ = __xor__

    def __invert__(self):
        return mkint(~self.e)

    def __neg__(self):
        return mkint(-_ext(self.e, self.e.size() + 1))

    def __pos__(self):
        return self

    def __abs__(self):
        e = _ext(self.e, self.e.size() + 1)
        return mkint(z3.If(e < 0, -e, e))

    def _divmod(self, a, b):
        a, b = _lift(a), _lift(b)
        if a is None or b is None:
            return NotImplemented
        a, b = _same(a, b, 1)
        zero = bv(0, a.size())
        if eng().fork(b == zero):
            raise ZeroDivisionError("integer division or modulo by zero")
        q, r = a / b, z3.SRem(a, b)
        adj = z3.And(r != zero, (r < zero) != (b < zero))
        return (mkint(z3.If(adj, q - 1, q)), mkint(z3.If(adj, r + b, r)))

    def __divmod__(self, o):
        return self._divmod(self, o)

    def __rdivmod__(self, o):
        return self._divmod(o, self)

    def __floordiv__(self, o):
        r = self._divmod(self, o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = self._divmod(o, self)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self._divmod(self, o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        r = self._divmod(o, self)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        return mkrat(self, o)

    def __rtruediv__(self, o):
        return mkrat(o, self)

    def _shift_amount(self, o):
        n = o if type(o) is int else o.__index__()
        if n < 0:
            raise ValueError("negative shift count")
        return n

    def __lshift__(self, o):
        n = self._shift_amount(o)
        w = self.e.size() + n
        return mkint(_ext(self.e, w) << n)

    def __rshift__(self, o):
        n = min(self._shift_amount(o), self.e.size())
        return mkint(self.e >> n)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return pow(o, self.__index__())

    # conversions
    def __index__(self):
        return eng().concretise(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import structmodel
        return structmodel.int_to_bytes(self, length, byteorder, signed,
                                        OverflowError)

    def __str__(self):
        return token_for(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d"):
            return token_for(self)
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def f_apply(f, a, b):
    a, b = _same(_lift(a), _lift(b))
    return mkbool(f(a, b))


def token_for(x):
    """Unique text standing for str(x); int() of it gives x back."""
    en = eng()
    for y in en.token_syms:
        if y is x or en.fork(z3.simplify(
                _same(x.e, y.e)[0] == _same(x.e, y.e)[1])):
            return y.tok
    tok = "\ue000%d\ue001" % len(en.token_syms)
    x.tok = tok
    en.tokens[tok] = x
    en.token_syms.append(x)
    return tok


def mkrat(n, d):
    """n / d with float semantics approximated as exact rational."""
    if not all(type(v) in (int, bool, SymInt, SymBool) for v in (n, d)):
        if type(d) is float and d.is_integer():
            d = int(d)
        elif type(n) is float and n.is_integer():
            n = int(n)
        else:
            return NotImplemented
    if type(d) in (SymInt, SymBool):
        if not (d != 0):
            raise ZeroDivisionError("division by zero")
        if d < 0:
            n, d = -n, -d
    else:
        if d == 0:
            raise ZeroDivisionError("division by zero")
        if d < 0:
            n, d = -n, -d
    return SymRat(n, d)


class SymRat(object):
    """A float holding num/den exactly (|num| < 2**53 is the stated bound)."""
    __slots__ = ("n", "d", "at")
    __class__ = property(lambda self: float)

    __getattr__ = missing

    def __init__(self, n, d, at=None):
        """at: (whole, millionths) when those are known."""
        self.n = n
        self.d = d
        self.at = at

    @staticmethod
    def parts(o):
        if type(o) is SymRat:
            return o.n, o.d
        if type(o) is float:
            return o.as_integer_ratio()
        if type(o) in (int, bool, SymInt, SymBool):
            return o, 1
        return None

    @staticmethod
    def split(o):
        """(whole, millionths) if that is known without dividing."""
        if type(o) is SymRat:
            if o.at is None and type(o.d) is int and o.d == 1:
                return o.n, 0
            return o.at
        if type(o) is float:
            return (int(o), 0) if o.is_integer() else None
        return o, 0

    @staticmethod
    def _sum(a, b):
        if a is None or b is None:
            return None
        s, m = a[0] + b[0], a[1] + b[1]
        if type(a[1]) is int and a[1] == 0 or type(b[1]) is int and b[1] == 0:
            return s, m
        return (s + 1, m - 1000000) if m >= 1000000 else (s, m)

    def _cmp(self, o, f):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        return f(self.n * p[1], p[0] * self.d)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return HASH

    def __bool__(self):
        return bool(self.n != 0)

    def __add__(self, o):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        at = self._sum(self.split(self), self.split(o))
        return SymRat(self.n * p[1] + p[0] * self.d, self.d * p[1], at)

    __radd__ = __add__

    def __neg__(self):
        at = None
        if self.at is not None:
            s, m = self.at
            if type(m) is int and m == 0:
                at = -s, 0
            else:
                at = (-s - 1, 1000000 - m) if m > 0 else (-s, 0)
        return SymRat(-self.n, self.d, at)

    def __sub__(self, o):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        if type(o) is SymRat:
            at = self._sum(self.split(self), self.split(-o))
        else:
            at = self._sum(self.split(self), self.split(-p[0])) \
                if p[1] == 1 else None
        return SymRat(self.n * p[1] - p[0] * self.d, self.d * p[1], at)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        return SymRat(self.n * p[0], self.d * p[1])

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self.parts(o)
        if p is None:
            return NotImplemented
        r = mkrat(self.n * p[1], self.d * p[0])
        return r

    def __floordiv__(self, o):
        r = self / o
        return SymRat(r.__floor__(), 1)

    def __mod__(self, o):
        q = (self / o).__floor__()
        return self - q * o

    def __floor__(self):
        if self.at is not None:
            return self.at[0]
        return self.n // self.d

    def __ceil__(self):
        if self.at is not None:
            return self.at[0] + 1 if self.at[1] > 0 else self.at[0]
        return -((-self.n) // self.d)

    def __trunc__(self):
        if self.at is not None:
            return self.__ceil__() if self.at[0] < 0 else self.at[0]
        if self.n < 0:
            return -((-self.n) // self.d)
        return self.n // self.d

    def __round__(self, nd=None):
        if nd is not None:
            raise E.Unsupported("round(x, n) of a symbolic float")
        f = self.n // self.d
        two = (self.n - f * self.d) * 2
        if two > self.d:
            return f + 1
        if two == self.d:
            return f + (f % 2)
        return f

    def __int__(self):
        r = self.__trunc__()
        return r if type(r) is int else r.__index__()

    def __float__(self):
        eng().die(E.Unsupported("float() of a symbolic rational"))

    def is_integer(self):
        return (self.n % self.d) == 0

    def __str__(self):
        return "<symfloat>"

    __repr__ = __str__


# -- byte strings ----------------------------------------------------------

z3.ExprRef.ks_simple = False        # set on elements known to be simplified


def mkbytes(elems):
    out = []
    conc = True
    for x in elems:
        if type(x) is int:
            out.append(x)
            continue
        if x.ks_simple:
            out.append(x)
            conc = False
            continue
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            out.append(x.as_long())
        else:
            x.ks_simple = True
            out.append(x)
            conc = False
    return bytes(out) if conc else SymBytes(out)


def elems_of(b):
    """List of byte elements of bytes / SymBytes / bytearray / memoryview."""
    if type(b) in (SymBytes, SymByteArray, SymView):
        return b.b
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    if isinstance(b, memoryview):
        return list(b.tobytes())
    return None


def elem_eq(a, b):
    if type(a) is int and type(b) is int:
        return z3.BoolVal(a == b)
    if type(a) is int:
        a = bv(a, 8)
    if type(b) is int:
        b = bv(b, 8)
    return a == b


def elem_int(x):
    return x if type(x) is int else mkint(z3.ZeroExt(1, x))


def bytes_eq_term(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    terms = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is int and type(y) is int:
            if x != y:
                return z3.BoolVal(False)
            continue
        terms.append(elem_eq(x, y))
    return z3.And(terms) if terms else z3.BoolVal(True)


def _norm_index(i):
    return i.__index__() if type(i) in (SymInt, SymBool) else i


class _Seq(object):
    __slots__ = ("b",)

    def __init__(self, elems):
        self.b = elems

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) != 0

    def __hash__(self):
        return HASH

    def __repr__(self):
        return "<sym%d>" % len(self.b)


def seq_slice(n, s):
    """Concretises the bounds of a slice over a sequence of length n."""
    def bound(v):
        if type(v) in (SymInt, SymBool):
            if v >= n:
                return n
            if v <= -n:
                return 0 if n == 0 else -n
            return v.__index__()
        return v
    return slice(bound(s.start), bound(s.stop), s.step)


class SymBytes(_Seq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.b[seq_slice(len(self.b), i)])
        return elem_int(self.b[_norm_index(i)])

    def __iter__(self):
        return iter([elem_int(x) for x in self.b])

    def __add__(self, o):
        e = elems_of(o)
        return NotImplemented if e is None else mkbytes(self.b + e)

    def __radd__(self, o):
        e = elems_of(o)
        return NotImplemented if e is None else mkbytes(e + self.b)

    def __mul__(self, n):
        return mkbytes(self.b * _norm_index(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        e = elems_of(o)
        if e is None:
            return NotImplemented
        return mkbool(bytes_eq_term(self.b, e))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        return HASH

    def _lt(self, o, strict):
        e = elems_of(o)
        if e is None:
            return NotImplemented
        r = z3.BoolVal(len(self.b) < len(e) if strict
                       else len(self.b) <= len(e))
        for x, y in reversed(list(zip(self.b, e))):
            x = bv(x, 8) if type(x) is int else x
            y = bv(y, 8) if type(y) is int else y
            r = z3.If(x == y, r, z3.ULT(x, y))
        return mkbool(r)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else lnot(r)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else lnot(r)

    def __contains__(self, o):
        if type(o) in (int, SymInt):
            return bool(lor(*[elem_int(x) == o for x in self.b] or [False]))
        return self.find(o) >= 0

    def find(self, sub, start=0, end=None):
        if type(sub) in (int, SymInt):
            sub = mkbytes([z3.Extract(7, 0, _ext(_lift(sub), 9))])
        e = elems_of(sub)
        end = len(self.b) if end is None else end
        for i in range(start, end - len(e) + 1):
            if mkbool(bytes_eq_term(self.b[i:i + len(e)], e)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        if a:
            return self[slice(*a)].startswith(p)
        e = elems_of(p)
        if len(e) > len(self.b):
            return False
        return mkbool(bytes_eq_term(self.b[:len(e)], e))

    def endswith(self, p):
        e = elems_of(p)
        if len(e) > len(self.b):
            return False
        return mkbool(bytes_eq_term(self.b[len(self.b) - len(e):], e))

    def _stripset(self, chars):
        return list(elems_of(chars)) if chars is not None else list(
            b" \t\n\r\x0b\f")

    def lstrip(self, chars=None):
        cs = self._stripset(chars)
        i = 0
        while i < len(self.b) and mkbool(
                z3.Or([elem_eq(self.b[i], c) for c in cs])):
            i += 1
        return mkbytes(self.b[i:])

    def rstrip(self, chars=None):
        cs = self._stripset(chars)
        i = len(self.b)
        while i > 0 and mkbool(
                z3.Or([elem_eq(self.b[i - 1], c) for c in cs])):
            i -= 1
        return mkbytes(self.b[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if all(type(x) is int for x in self.b):
            return bytes(self.b).decode(encoding, errors)
        if enc in ("latin-1", "iso-8859-1", "latin1"):
            if all(bool(elem_int(x) < 128) for x in self.b):
                return SymStr(list(self.b))
            eng().die(E.Unsupported("latin-1 decode of non-ascii"))
        if enc == "ascii":
            if not mkbool(z3.And([elem_ascii(x) for x in self.b])):
                if errors != "strict":
                    eng().die(E.Unsupported("lossy decode"))
                raise UnicodeDecodeError("ascii", b"?", 0, 1, "symbolic")
            return SymStr(list(self.b))
        if enc not in ("utf-8", "utf8"):
            eng().die(E.Unsupported("decode %s" % encoding))
        if not eng().fork(utf8_valid(self.b)):
            if errors != "strict":
                eng().die(E.Unsupported("lossy decode"))
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "symbolic")
        return SymStr(list(self.b))

    def hex(self):
        return bytes(self).hex()

    def join(self, it):
        out, first = [], True
        for x in it:
            e = None if isinstance(x, str) else elems_of(x)
            if e is None:
                raise TypeError("sequence item: expected a bytes-like object")
            if not first:
                out += self.b
            out += e
            first = False
        return self._like(out)

    _like = staticmethod(mkbytes)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self._like(list(self.b)), self._like([]), self._like([])
        n = len(elems_of(sep))
        return (self._like(self.b[:i]), mkbytes(elems_of(sep)),
                self._like(self.b[i + n:]))

    def __getattr__(self, name):
        if not hasattr(self.__class__, name):
            raise AttributeError(name)
        if all(type(x) is int for x in self.b):
            return getattr(bytes(self.b), name)
        eng().die(E.Unsupported("%s of symbolic bytes" % name))

    def __bytes__(self):
        return bytes([x if type(x) is int else eng().concretise(x, False)
                      for x in self.b])


class SymByteArray(SymBytes):
    """Any bytearray: symbolic bytes may be stored in it later."""
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    @staticmethod
    def _like(elems):
        return SymByteArray(list(elems))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymByteArray(self.b[seq_slice(len(self.b), i)])
        return elem_int(self.b[_norm_index(i)])

    def __add__(self, o):
        e = elems_of(o)
        return NotImplemented if e is None else SymByteArray(self.b + e)

    def __mul__(self, n):
        return SymByteArray(self.b * _norm_index(n))

    __rmul__ = __mul__

    def __iadd__(self, o):
        e = elems_of(o)
        if e is None or isinstance(o, str):
            raise TypeError("can't concat to bytearray")
        self.b.extend(e)
        return self

    def __imul__(self, n):
        self.b[:] = self.b * _norm_index(n)
        return self

    def extend(self, o):
        e = elems_of(o)
        if e is None:
            e = [elem_of_int(x) for x in o]
        self.b.extend(e)

    def append(self, o):
        self.b.append(elem_of_int(o))

    def insert(self, i, o):
        self.b.insert(_norm_index(i), elem_of_int(o))

    def pop(self, i=-1):
        return elem_int(self.b.pop(_norm_index(i)))

    def clear(self):
        self.b.clear()

    def reverse(self):
        self.b.reverse()

    def copy(self):
        return SymByteArray(list(self.b))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            e = elems_of(v)
            if e is None:
                e = [elem_of_int(x) for x in v]
            self.b[seq_slice(len(self.b), i)] = list(e)
        else:
            self.b[_norm_index(i)] = elem_of_int(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.b[seq_slice(len(self.b), i)]
        else:
            del self.b[_norm_index(i)]

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy


class SymView(object):
    """A memoryview: a window on bytes or a bytearray."""
    __slots__ = ("obj", "at", "n")
    __class__ = property(lambda self: memoryview)
    itemsize, format, ndim, contiguous = 1, "B", 1, True

    def __init__(self, obj, at=0, n=None):
        self.obj, self.at = obj, at
        self.n = len(elems_of(obj)) if n is None else n

    @property
    def b(self):
        return elems_of(self.obj)[self.at:self.at + self.n]

    @property
    def nbytes(self):
        return self.n

    @property
    def readonly(self):
        return type(self.obj) is not SymByteArray

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter([elem_int(x) for x in self.b])

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = range(self.n)[seq_slice(self.n, i)]
            if r.step != 1:
                return SymView(mkbytes(self.b[seq_slice(self.n, i)]))
            return SymView(self.obj, self.at + r.start, len(r))
        return elem_int(self.b[_norm_index(i)])

    def __setitem__(self, i, v):
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            r = range(self.n)[seq_slice(self.n, i)]
            e = elems_of(v)
            if e is None or len(e) != len(r):
                raise ValueError("memoryview assignment: different structures")
            for k, x in zip(r, list(e)):
                self.obj.b[self.at + k] = x
        else:
            self.obj.b[self.at + range(self.n)[_norm_index(i)]] = \
                elem_of_int(v)

    def tobytes(self, *a):
        return mkbytes(self.b)

    def tolist(self):
        return list(self)

    def hex(self):
        return self.tobytes().hex()

    def cast(self, fmt, *a):
        if fmt not in ("B", "c") or a:
            eng().die(E.Unsupported("memoryview.cast"))
        return self

    def toreadonly(self):
        return SymView(mkbytes(self.b))

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __eq__(self, o):
        e = elems_of(o)
        if e is None or isinstance(o, str):
            return NotImplemented
        return mkbool(bytes_eq_term(self.b, e))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        return HASH

    def __bytes__(self):
        return bytes(SymBytes(self.b))


def elem_of_int(x):
    if type(x) is int:
        return x
    if not eng().fork(z3.And(x.e >= 0, x.e < 256) if x.e.size() > 8
                      else x.e >= 0):
        raise ValueError("byte must be in range(0, 256)")
    return z3.Extract(7, 0, _ext(x.e, max(9, x.e.size())))


def elem_ascii(x):
    return z3.BoolVal(x < 128) if type(x) is int else z3.ULT(x, bv(128, 8))


_UTF8 = (  # ranges of the bytes of one character
    ((0, 0x7F),),
    ((0xC2, 0xDF), (0x80, 0xBF)),
    ((0xE0, 0xE0), (0xA0, 0xBF), (0x80, 0xBF)),
    ((0xE1, 0xEC), (0x80, 0xBF), (0x80, 0xBF)),
    ((0xED, 0xED), (0x80, 0x9F), (0x80, 0xBF)),
    ((0xEE, 0xEF), (0x80, 0xBF), (0x80, 0xBF)),
    ((0xF0, 0xF0), (0x90, 0xBF), (0x80, 0xBF), (0x80, 0xBF)),
    ((0xF1, 0xF3), (0x80, 0xBF), (0x80, 0xBF), (0x80, 0xBF)),
    ((0xF4, 0xF4), (0x80, 0x8F), (0x80, 0xBF), (0x80, 0xBF)))


def utf8_valid(elems):
    """z3 Bool: the byte sequence is well-formed UTF-8 (as CPython decodes)."""
    n = len(elems)
    ok = [None] * n + [True]        # Python bools wherever they are known

    def rng(x, lo, hi):
        if type(x) is int:
            return lo <= x <= hi
        if lo == 0:
            return z3.ULE(x, bv(hi, 8))
        return z3.And(z3.ULE(bv(lo, 8), x), z3.ULE(x, bv(hi, 8)))

    for i in range(n - 1, -1, -1):
        alts = []
        for form in _UTF8:
            k = len(form)
            if i + k > n or ok[i + k] is False:
                continue
            terms = []
            for j in range(k):
                t = rng(elems[i + j], *form[j])
                if t is False:
                    break
                if t is not True:
                    terms.append(t)
            else:
                if ok[i + k] is not True:
                    terms.append(ok[i + k])
                alts.append(terms)
        if not alts:
            ok[i] = False
        elif any(not t for t in alts):
            ok[i] = True
        elif len(alts) == 1 and len(alts[0]) == 1:
            ok[i] = alts[0][0]
        else:
            ok[i] = z3.Or([z3.And(t) for t in alts])
            ok[i] = z3.simplify(ok[i])
    return ok[0] if type(ok[0]) is not bool else z3.BoolVal(ok[0])


class SymStr(_Seq):
    """Text represented by its (valid) UTF-8 bytes."""
    __slots__ = ()
    __class__ = property(lambda self: str)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("utf-8", "utf8"):
            return mkbytes(self.b)
        if enc in ("ascii", "latin-1", "latin1"):
            if all(bool(elem_int(x) < 128) for x in self.b):
                return mkbytes(self.b)
            if enc == "ascii" and errors == "strict":
                raise UnicodeEncodeError("ascii", "?", 0, 1, "symbolic")
        eng().die(E.Unsupported("encode %s" % encoding))

    def _elems(self, o):
        if type(o) is SymStr:
            return o.b
        if isinstance(o, str):
            try:
                return list(o.encode("utf-8"))
            except UnicodeEncodeError:
                return None
        return None

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        e = self._elems(o)
        if e is None:
            return False
        return mkbool(bytes_eq_term(self.b, e))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        return HASH

    def __add__(self, o):
        e = self._elems(o)
        return NotImplemented if e is None else mkstr(self.b + e)

    def __radd__(self, o):
        e = self._elems(o)
        return NotImplemented if e is None else mkstr(e + self.b)

    def chars(self):
        """Splits into code points (forks on the lead bytes)."""
        out, i = [], 0
        while i < len(self.b):
            x = elem_int(self.b[i])
            n = 1 if x < 0x80 else 2 if x < 0xE0 else 3 if x < 0xF0 else 4
            out.append(self.b[i:i + n])
            i += n
        return out

    def __len__(self):
        return len(self.chars())

    def __iter__(self):
        return iter([mkstr(c) for c in self.chars()])

    def __getitem__(self, i):
        cs = self.chars()
        if isinstance(i, slice):
            sel = cs[seq_slice(len(cs), i)]
        else:
            sel = [cs[_norm_index(i)]]
        return mkstr([x for c in sel for x in c])

    def __lt__(self, o):
        return SymBytes(self.b) < mkbytes(self._elems(o))

    def __le__(self, o):
        return SymBytes(self.b) <= mkbytes(self._elems(o))

    def __gt__(self, o):
        return SymBytes(self.b) > mkbytes(self._elems(o))

    def __ge__(self, o):
        return SymBytes(self.b) >= mkbytes(self._elems(o))

    def __contains__(self, o):
        return SymBytes(self.b).find(mkbytes(self._elems(o))) >= 0

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        return SymBytes(self.b).startswith(mkbytes(self._elems(p)))

    def endswith(self, p):
        return SymBytes(self.b).endswith(mkbytes(self._elems(p)))

    def format(self, *args, **kw):
        from . import rt
        out, known, kw = [], bytearray(), dict(kw)
        for x in list(self.b) + [None]:
            if type(x) is int:
                known.append(x)
                continue
            out.append(known.decode("utf-8", "surrogateescape"))
            known = bytearray()
            if x is None:
                break
            v = elem_int(x)
            if lor(v == ord("{"), v == ord("}")):
                eng().die(E.Unsupported("format with a symbolic field"))
            name = "_sym%d" % len(kw)
            kw[name] = SymStr([x])
            out.append("{%s}" % name)
        return rt._str_format("".join(out), args, kw)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            eng().die(E.Unsupported("split() on whitespace"))
        s = self._elems(sep)
        out, rest = [], SymBytes(self.b)
        while maxsplit < 0 or len(out) < maxsplit:
            i = rest.find(mkbytes(s)) if len(rest) else -1
            if i < 0:
                break
            r = elems_of(rest)
            out.append(mkstr(r[:i]))
            rest = SymBytes(r[i + len(s):])
        out.append(mkstr(rest.b))
        return out

    __getattr__ = missing

    def _cut(self, sep):
        """Pieces between all occurrences of sep."""
        return self.split(sep)

    def _glue(self, sep, pieces):
        out = pieces[0]
        for p in pieces[1:]:
            out = out + sep + p
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        p = self.split(sep)
        if maxsplit < 0 or len(p) <= maxsplit + 1:
            return p
        if len(self._elems(sep)) != 1:
            eng().die(E.Unsupported("rsplit() at several characters"))
        k = len(p) - maxsplit
        return [self._glue(sep, p[:k])] + p[k:]

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return ("", "", p[0])
        return (p[0], sep, p[1])

    def replace(self, old, new, count=-1):
        return self._glue(new, self.split(old, count))

    def count(self, sub):
        return len(self.split(sub)) - 1

    def find(self, sub, *a):
        if a:
            eng().die(E.Unsupported("find() in a part of a symbolic str"))
        p = self.split(sub, 1)
        return -1 if len(p) == 1 else len(p[0])

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def join(self, it):
        it = list(it)
        return self._glue(self, it) if it else ""

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return (p[0], "", "")
        return (p[0], sep, p[1])

    def rstrip(self, c=None):
        return mkstr(elems_of(SymBytes(self.b).rstrip(
            None if c is None else c.encode("ascii"))))

    def lstrip(self, c=None):
        return mkstr(elems_of(SymBytes(self.b).lstrip(
            None if c is None else c.encode("ascii"))))

    def strip(self, c=None):
        return mkstr(elems_of(SymBytes(self.b).strip(
            None if c is None else c.encode("ascii"))))

    def __str__(self):
        # only reached from C code (logging and error messages)
        return "<symstr%d>" % len(self.b)

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self


def mkstr(elems):
    b = mkbytes(elems)
    if type(b) is bytes:
        return b.decode("utf-8")
    return SymStr(b.b)


class SymFmt(object):
    """Text made of literal pieces and decimal renderings of SymInts."""
    __slots__ = ("parts",)
    __class__ = property(lambda self: str)

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        p = fmt_parts(o)
        return NotImplemented if p is None else mkfmt(self.parts + p)

    def __radd__(self, o):
        p = fmt_parts(o)
        return NotImplemented if p is None else mkfmt(p + self.parts)

    def __hash__(self):
        return HASH

    def force(self):
        return "".join(p if type(p) is str else str(p.__index__())
                       for p in self.parts)

    def __eq__(self, o):
        if type(o) is SymFmt:
            o = o.force()
        return self.force() == o

    def __len__(self):
        return len(self.force())

    def __str__(self):
        return "".join(p if type(p) is str else token_for(p)
                       for p in self.parts)

    __repr__ = __str__

    def encode(self, *a, **k):
        return self.force().encode(*a, **k)

    def __getattr__(self, name):
        return getattr(self.force(), name)


def fmt_parts(o):
    if type(o) is SymFmt:
        return o.parts
    if type(o) is SymInt:
        return [o]
    if type(o) is str:
        return [o]
    return None


def mkfmt(parts):
    out = []
    for p in parts:
        if type(p) is str and out and type(out[-1]) is str:
            out[-1] += p
        elif type(p) is int:
            out.append(str(p))
        else:
            out.append(p)
    if all(type(p) is str for p in out):
        return "".join(out)
    return SymFmt(out)


class SymPick(object):
    """A value chosen by a symbolic key among concrete ones; forced on use."""
    __slots__ = ("opts", "val", "done")

    def __init__(self, opts):
        self.opts = opts
        self.val = None
        self.done = False

    __class__ = property(lambda self: type(self.opts[0][1]))

    def force(self):
        if not self.done:
            for cond, v in self.opts[:-1]:
                if eng().fork(cond):
                    self.val = v
                    break
            else:
                self.val = self.opts[-1][1]
            self.done = True
        return self.val

    def __str__(self):
        return str(self.force())

    def __repr__(self):
        return repr(self.force())

    def __eq__(self, o):
        if type(o) is SymPick:
            o = o.force()
        return mkbool(z3.Or([c for c, v in self._excl() if v == o] or
                            [z3.BoolVal(False)]))

    def _excl(self):
        prev = []
        for c, v in self.opts:
            yield z3.And([c] + [z3.Not(p) for p in prev]), v
            prev.append(c)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __hash__(self):
        return hash(self.force())

    def __getattr__(self, name):
        return getattr(self.force(), name)

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return bool(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __format__(self, s):
        return format(self.force(), s)


SYMBYTES = frozenset([SymBytes, SymByteArray, SymView])
SYMTYPES = frozenset([SymBool, SymInt, SymRat, SymBytes, SymByteArray, SymView,
                      SymStr, SymFmt, SymPick])


def is_sym(x):
    return type(x) in SYMTYPES


def has_sym(x):
    t = type(x)
    if t in SYMTYPES:
        return True
    if t is tuple:
        return any(has_sym(y) for y in x)
    return False


def symval(x, model):
    """Evaluates a (nested) value under a model to plain python data."""
    t = type(x)
    if t is SymInt:
        return model.eval(x.e, model_completion=True).as_signed_long()
    if t is SymBool:
        return z3.is_true(model.eval(x.e, model_completion=True))
    if t is SymRat:
        n, d = symval(x.n, model), symval(x.d, model)
        return n / d
    if t in (SymBytes, SymByteArray, SymView):
        return bytes(y if type(y) is int else
                     model.eval(y, model_completion=True).as_long()
                     for y in x.b)
    if t is SymStr:
        return symval(SymBytes(x.b), model).decode("utf-8")
    if t is SymFmt:
        return "".join(p if type(p) is str else str(symval(p, model))
                       for p in x.parts)
    if t is SymPick:
        for c, v in x.opts:
            if z3.is_true(model.eval(c, model_completion=True)):
                return v
        return x.opts[-1][1]
    if t in (list, tuple):
        return t(symval(y, model) for y in x)
    if isinstance(x, dict):
        return {symval(k, model): symval(v, model) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return set(symval(y, model) for y in x)
    return x


def deep_eq(a, b):
    """Structural equality as a z3 term (no forking on leaves)."""
    ta, tb = type(a), type(b)
    if ta in SYMTYPES or tb in SYMTYPES:
        if ta is SymFmt:
            a = a.force()
        if tb is SymFmt:
            b = b.force()
        r = (a == b)
        if r is NotImplemented:
            return z3.BoolVal(False)
        return as_bool_term(r)
    if ta in (list, tuple) and tb in (list, tuple):
        if ta is not tb or len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return z3.BoolVal(False)
        if not any(has_sym(k) for k in list(a) + list(b)):
            if set(a) != set(b):
                return z3.BoolVal(False)
            return z3.And([deep_eq(a[k], b[k]) for k in a])
        conds = []
        for k, v in a.items():
            conds.append(z3.Or([z3.And(deep_eq(k, k2), deep_eq(v, v2))
                                for k2, v2 in b.items()]))
        return z3.And(conds)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([z3.Or([deep_eq(x, y) for y in b]) for x in a])
    r = (a == b)
    if type(r) is SymBool:
        return r.e
    return z3.BoolVal(bool(r))

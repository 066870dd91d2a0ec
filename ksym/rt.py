"""Runtime behind the instrumentation."""
import builtins
import collections
import ctypes
import functools
import operator
import re
import string
import types

import z3

from . import engine as E
from . import regex
from . import values as V

SymInt, SymBool, SymRat = V.SymInt, V.SymBool, V.SymRat
SYMTYPES = V.SYMTYPES
is_sym, has_sym = V.is_sym, V.has_sym
_missing = object()


def ks__enter(qual):
    f = E.ENGINE.functions
    f[qual] = f.get(qual, 0) + 1
    if E.ENGINE.dead is not None:
        raise E.ENGINE.dead


def ks__tick():
    E.ENGINE.tick()


# -- keyed containers ---------------------------------------------------------

def _force_pick(k):
    return k.force() if type(k) is V.SymPick else k


def _eqterm(a, b):
    return V.deep_eq(a, b)


def find(keys, key):
    """The key already present that equals key, else _missing (forks)."""
    for k in keys:
        if k is key:
            return k
    for k in keys:
        if not (has_sym(k) or has_sym(key)):
            if type(k) is type(key) and k == key or k == key:
                return k
            continue
        if E.ENGINE.fork(_eqterm(k, key)):
            return k
    return _missing


def slow(container, key):
    """Does a lookup of key in container need symbolic treatment?"""
    if has_sym(key):
        return True
    return E.ENGINE.sym_keys and any(has_sym(k) for k in container)


def is_map(o):
    return isinstance(o, dict) and not is_sym(o)


def is_set(o):
    return type(o) in (set, frozenset)


_KEYS = type({}.keys())


def ks__in(x, c):
    x = _force_pick(x)
    if type(c) is V.SymPick:
        c = c.force()
    tc = type(c)
    if tc in SYMTYPES:
        return x in c
    if tc in (list, tuple) or tc is collections.deque or tc is range:
        if tc is range and type(x) is SymInt:
            r = V.land(x >= c.start, x < c.stop) if c.step == 1 and len(c) \
                else V.lor(False, *[x == y for y in c])
            return bool(r)
        if has_sym(x) or any(has_sym(y) for y in c):
            t = [_eqterm(x, y) for y in c]
            return E.ENGINE.fork(z3.Or(t)) if t else False
        return x in c
    if is_map(c) or is_set(c) or isinstance(c, _KEYS):
        if tc.__dict__.get("__contains__") is not None and \
                not (is_map(c) or is_set(c) or isinstance(c, _KEYS)):
            return x in c
        if slow(c, x):
            t = [_eqterm(x, y) for y in c]
            return E.ENGINE.fork(z3.Or(t)) if t else False
        return x in c
    if tc in (str, bytes) and is_sym(x):
        if tc is str:
            return x in V.SymStr(list(c.encode("utf-8")))
        return x in V.SymBytes(list(c)) if type(x) is not SymInt else \
            E.ENGINE.fork(z3.Or([V.as_bool_term(x == y) for y in c] or
                                [z3.BoolVal(False)]))
    return x in c


def ks__notin(x, c):
    return not ks__in(x, c)


def ks__eq(a, b):
    if E.ENGINE.sym_keys and (is_map(a) and is_map(b) or
                              is_set(a) and is_set(b)):
        return V.mkbool(V.deep_eq(a, b))
    if type(a) is V.SymPick:
        return a.__eq__(b)
    return a == b


def ks__ne(a, b):
    if E.ENGINE.sym_keys and (is_map(a) and is_map(b) or
                              is_set(a) and is_set(b)):
        return V.lnot(V.mkbool(V.deep_eq(a, b)))
    if type(a) is V.SymPick:
        return V.lnot(a.__eq__(b))
    return a != b


def dict_lookup(d, key, default=_missing):
    """Existing key or _missing; may answer lazily through a SymPick."""
    keys = list(d)
    if len(keys) > 4 and not any(has_sym(k) for k in keys) and \
            all(type(v) is str for v in d.values()):
        terms = [_eqterm(k, key) for k in keys]
        if not E.ENGINE.fork(z3.Or(terms)):
            return _missing
        return V.SymPick([(t, d[k]) for t, k in zip(terms, keys)])
    k = find(keys, key)
    return _missing if k is _missing else dict.__getitem__(d, k)


def ks__get(o, i):
    t = type(i)
    if t is V.SymPick:
        i = i.force()
        t = type(i)
    to = type(o)
    if to is V.SymPick:
        o = o.force()
        to = type(o)
    if to in SYMTYPES:
        return o[i]
    if is_map(o):
        if to.__getitem__ is not dict.__getitem__ or not slow(o, i):
            return o[i]
        v = dict_lookup(o, i)
        if v is not _missing:
            return v
        if isinstance(o, collections.defaultdict) and \
                o.default_factory is not None:
            v = o.default_factory()
            E.ENGINE.sym_keys = True
            dict.__setitem__(o, i, v)
            return v
        raise KeyError(i)
    if t is slice and to in (bytes, str, list, tuple, bytearray) and (
            type(i.start) is SymInt or type(i.stop) is SymInt):
        return o[V.seq_slice(len(o), i)]
    if t is SymInt and to in (list, tuple, bytes, str):
        n = len(o)
        if i >= n or i < -n:
            raise IndexError("index out of range")
    return o[i]


def ks__set(o, i, v):
    if type(i) is V.SymPick:
        i = i.force()
    if is_map(o) and type(o).__setitem__ in (
            dict.__setitem__, collections.OrderedDict.__setitem__) and \
            slow(o, i):
        k = find(list(o), i)
        if k is _missing:
            E.ENGINE.sym_keys = True
            k = i
        o[k] = v
        return
    o[i] = v


def ks__del(o, i):
    if is_map(o) and slow(o, i):
        k = find(list(o), i)
        if k is _missing:
            raise KeyError(i)
        del o[k]
        return
    del o[i]


def set_add(s, x):
    if slow(s, x):
        if find(list(s), x) is not _missing:
            return
        E.ENGINE.sym_keys = True
    set.add(s, x)


def ks__mkset(it):
    s = set()
    for x in it:
        set_add(s, _force_pick(x))
    return s


def ks__mkdict(pairs):
    d = {}
    for k, v in pairs:
        ks__set(d, k, v)
    return d


def _mem(x, c):
    return find(list(c), x) is not _missing


def _needs(*cs):
    for c in cs:
        if is_map(c) or is_set(c) or type(c) in (list, tuple):
            if any(has_sym(x) for x in c):
                return True
    return False


SET_BIN = {
    "sub": lambda a, b: ks__mkset(x for x in list(a) if not _mem(x, b)),
    "and": lambda a, b: ks__mkset(x for x in list(a) if _mem(x, b)),
    "or": lambda a, b: ks__mkset(list(a) + list(b)),
    "xor": lambda a, b: ks__mkset(
        [x for x in list(a) if not _mem(x, b)] +
        [x for x in list(b) if not _mem(x, a)]),
}
OPS = {"sub": operator.sub, "and": operator.and_, "or": operator.or_,
       "xor": operator.xor, "mod": operator.mod}
IOPS = {"sub": operator.isub, "and": operator.iand, "or": operator.ior,
        "xor": operator.ixor, "mod": operator.imod}
ALLIOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul,
           "Div": operator.itruediv, "FloorDiv": operator.ifloordiv,
           "Mod": operator.imod, "Pow": operator.ipow,
           "LShift": operator.ilshift, "RShift": operator.irshift,
           "BitOr": operator.ior, "BitXor": operator.ixor,
           "BitAnd": operator.iand, "MatMult": operator.imatmul}


def _setlike(o):
    return is_set(o) or isinstance(o, _KEYS)


def _binop(kind):
    op = OPS[kind]

    def f(a, b):
        if E.ENGINE.sym_keys and _setlike(a) and _setlike(b):
            return SET_BIN[kind](a, b)
        return op(a, b)
    return f


def _inop(kind):
    op = IOPS[kind]

    def f(a, b):
        if E.ENGINE.sym_keys and type(a) is set and _setlike(b):
            r = SET_BIN[kind](a, b)
            a.clear()
            for x in r:
                set.add(a, x)
            return a
        if kind == "mod":
            return ks__mod(a, b)
        return op(a, b)
    return f


ks__sub, ks__or, ks__and, ks__xor = (_binop(k) for k in
                                     ("sub", "or", "and", "xor"))
ks__isub, ks__ior, ks__iand, ks__ixor, ks__imod = (
    _inop(k) for k in ("sub", "or", "and", "xor", "mod"))


def ks__iop(name, a, b):
    k = {"Sub": "sub", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
         "Mod": "mod"}.get(name)
    if k:
        return _inop(k)(a, b)
    return ALLIOPS[name](a, b)


# -- formatting ---------------------------------------------------------------

_SPEC = re.compile(r"%(\([^)]*\))?([-+ #0]*)(\*|\d+)?(\.(\*|\d+))?([a-zA-Z%])")


def _fmt_value(v):
    if type(v) is V.SymPick:
        return str(v.force())
    if type(v) in (SymInt,):
        return V.token_for(v)
    if type(v) is SymBool:
        return str(bool(v))
    return v


_BSPEC = re.compile(rb"%(.)", re.S)


def has_sym_bytes(b):
    return any(type(x) in V.SYMBYTES for x in
               (b if type(b) is tuple else (b,)))


def bytes_mod(fmt, args):
    """bytes % args with symbolic bytes among the args (%s and %b)."""
    it, pos, out = iter(args), 0, []
    for m in _BSPEC.finditer(fmt):
        out += fmt[pos:m.start()]
        pos = m.end()
        kind = m.group(1)
        if kind == b"%":
            out += b"%"
            continue
        v = next(it, _missing)
        if v is _missing:
            raise TypeError("not enough arguments for format string")
        if kind in (b"s", b"b") and V.elems_of(v) is not None \
                and not isinstance(v, str):
            out += V.elems_of(v)
        elif not is_sym(v):
            out += m.group(0) % (v,)
        else:
            eng().die(Unsupported("bytes formatting with %r" % kind))
    if next(it, _missing) is not _missing:
        raise TypeError("not all arguments converted during bytes formatting")
    return V.mkbytes(out + list(fmt[pos:]))


def ks__mod(a, b):
    if type(a) is not str:
        if type(a) is V.SymStr:
            return "<symfmt>"
        if type(a) in (bytes, bytearray) and has_sym_bytes(b):
            return bytes_mod(bytes(a), b if type(b) is tuple else (b,))
        return a % b
    args = b if type(b) is tuple else (b,)
    if is_map(b):
        if not any(is_sym(v) for v in b.values()):
            return a % b
        return _SPEC.sub(lambda m: m.group(0)[:-1] + "s" if m.group(1)
                         else m.group(0), a) % {
            k: _fmt_value(v) for k, v in b.items()}
    if not any(is_sym(v) for v in args):
        return a % b
    if any(type(v) in (V.SymStr,) for v in args):
        return _concat_fmt(a, args)
    it = iter(args)
    out, pos = [], 0
    for m in _SPEC.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group(6) == "%":
            out.append("%")
            continue
        v = next(it)
        if is_sym(v):
            if m.group(6) in "dis" and type(v) is SymInt:
                out.append(V.token_for(v))
            elif m.group(6) in "srdi":
                w = _fmt_value(v)
                out.append(w if type(w) is str else str(w))
            else:
                E.ENGINE.die(E.Unsupported("format %s of symbolic value"
                                           % m.group(0)))
        else:
            out.append(m.group(0) % (v,))
    out.append(a[pos:])
    return "".join(out)


def _concat_fmt(a, args):
    """Text with symbolic strings spliced in where %s stands."""
    it = iter(args)
    out, pos = "", 0
    for m in _SPEC.finditer(a):
        out = out + a[pos:m.start()]
        pos = m.end()
        if m.group(6) == "%":
            out = out + "%"
            continue
        v = next(it)
        if type(v) is V.SymStr and m.group(6) == "s":
            out = out + v
        elif is_sym(v):
            w = _fmt_value(v)
            out = out + (w if type(w) is str else str(w))
        else:
            out = out + m.group(0) % (v,)
    return out + a[pos:]


def ks__fstr(*parts):
    """An f-string: literals and (value, conversion, spec)."""
    out = ""
    for p in parts:
        if type(p) is str:
            out = out + p
            continue
        v, conv, spec = p
        if not is_sym(v):
            v = {"r": repr, "s": str, "a": ascii}.get(conv, lambda x: x)(v)
            out = out + format(v, spec)
            continue
        if type(v) is V.SymPick:
            v = v.force()
        if type(v) is V.SymStr and spec == "" and conv in ("", "s"):
            out = out + v
        elif spec in ("", "d", "s"):
            w = _fmt_value(v)
            out = out + (w if type(w) is str else str(w))
        else:
            E.ENGINE.die(E.Unsupported("format :%s of a symbolic value"
                                       % spec))
    return out


def _str_format(s, args, kw):
    f = string.Formatter()
    parts, auto = [], 0
    for lit, field, spec, conv in f.parse(s):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field, auto = "%d%s" % (auto, field), auto + 1
        v, _ = f.get_field(field, args, kw)
        if spec and "{" in spec:
            spec = _str_format(spec, args, kw)
        parts.append((v, conv or "", spec or ""))
    return ks__fstr(*parts)


# -- calls --------------------------------------------------------------------

class SymRange(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __iter__(self):
        i = self.a
        while (i < self.b) if self.c > 0 else (i > self.b):
            E.ENGINE.tick()
            yield i
            i = i + self.c

    def __len__(self):
        return len(list(iter(self)))

    def __reversed__(self):
        return iter(list(iter(self))[::-1])


def _int(x=0, *a):
    if type(x) is V.SymPick:
        x = x.force()
    t = type(x)
    if a:
        return int(x, *a)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._int()
    if t is SymRat:
        return x.__trunc__()
    if t is str and "\ue000" in x:
        s = x.strip()
        v = E.ENGINE.tokens.get(s)
        if v is not None:
            return v
        if s.startswith("-") and s[1:] in E.ENGINE.tokens:
            v = E.ENGINE.tokens[s[1:]]
            if v < 0:
                raise ValueError("invalid literal for int()")
            return -v
        raise ValueError("invalid literal for int()")
    if t in (V.SymStr, V.SymBytes):
        return _parse_int(x)
    return int(x, *a)


def _parse_int(x):
    elems = list(x.b)
    negative = False
    if len(elems) > 1:
        if V.elem_int(elems[0]) == 0x2d:
            negative = True
            del elems[0]
        elif V.elem_int(elems[0]) == 0x2b:
            del elems[0]
    value = 0
    for e in elems:
        c = V.elem_int(e)
        if not V.land(c >= 0x30, c <= 0x39):
            if c == 0x5f or c <= 0x20 or c >= 0x80 or \
                    0x1c <= c and c <= 0x20:
                E.ENGINE.die(E.Unsupported("int() of unusual text"))
            raise ValueError("invalid literal for int() with base 10")
        value = value * 10 + (c - 0x30)
    if not elems:
        raise ValueError("invalid literal for int() with base 10: ''")
    return -value if negative else value


def _str(x="", *a):
    if type(x) in SYMTYPES:
        if a:
            return V.mkbytes(V.elems_of(x)).decode(*a)
        if type(x) is V.SymStr:
            return x
        if type(x) in V.SYMBYTES:
            E.ENGINE.die(E.Unsupported("str() of symbolic bytes"))
        r = _fmt_value(x)
        return r if type(r) is str else str(r)
    return str(x, *a)


def _bytes(x=b"", *a):
    if type(x) in V.SYMBYTES:
        return V.mkbytes(list(x.b))
    if type(x) is V.SymInt:
        return bytes(x.__index__())
    if type(x) is V.SymStr:
        return x.encode(*a)
    if type(x) in (list, tuple) and any(is_sym(y) for y in x):
        return V.mkbytes([V.elem_of_int(y) for y in x])
    return bytes(x, *a)


def _bytearray(x=b"", *a):
    if a and isinstance(x, str):
        x = x.encode(*a)
    if type(x) in (int, V.SymInt, V.SymBool):
        if x < 0:
            raise ValueError("negative count")
        return V.SymByteArray([0] * x.__index__())
    e = None if isinstance(x, str) else V.elems_of(x)
    if e is None:
        if isinstance(x, str):
            raise TypeError("string argument without an encoding")
        e = [V.elem_of_int(y) for y in x]
    return V.SymByteArray(list(e))


def _type(*a):
    if len(a) == 1 and type(a[0]) in SYMTYPES:
        return a[0].__class__
    return type(*a)


def _set(it=()):
    it = list(it)
    if any(has_sym(x) for x in it):
        return ks__mkset(it)
    return set(it)


def _frozenset(it=()):
    it = list(it)
    if any(has_sym(x) for x in it):
        return frozenset(ks__mkset(it))
    return frozenset(it)


def _dict(*a, **k):
    if a and not is_map(a[0]) and not hasattr(a[0], "keys"):
        d = ks__mkdict(a[0])
        d.update(k)
        return d
    return dict(*a, **k)


def _range(*a):
    if any(type(x) is SymInt for x in a):
        a = list(a)
        s, e, st = (0, a[0], 1) if len(a) == 1 else \
            (a[0], a[1], a[2] if len(a) > 2 else 1)
        return SymRange(s, e, st)
    return range(*a)


def _float(x=0.0):
    if type(x) is SymInt:
        return SymRat(x, 1)
    if type(x) is SymRat:
        return x
    return float(x)


def _memoryview(x):
    if type(x) is V.SymView:
        return x[:]
    if isinstance(x, str) or V.elems_of(x) is None:
        raise TypeError("memoryview: a bytes-like object is required")
    return V.SymView(x)


def _bool(x=False):
    return bool(x)


def _minmax(f):
    def g(*a, **k):
        return f(*a, **k)
    return g


def _sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def _any(it):
    for x in it:
        if x:
            return True
    return False


class _CInt(object):
    """What ctypes' integers make of a symbolic one: its low bits."""

    def __init__(self, kind, value):
        n = 8 * ctypes.sizeof(kind)
        self.n, self.signed, self.value = n, kind(-1).value < 0, value

    def __setattr__(self, name, v):
        if name == "value" and type(v) is V.SymInt:
            e = z3.Extract(self.n - 1, 0, V._ext(v.e, max(
                self.n, v.e.size())))
            v = V.mkint(e if self.signed else z3.ZeroExt(1, e))
        elif name == "value":
            v = (v + (1 << self.n - 1 if self.signed else 0)) % (
                1 << self.n) - (1 << self.n - 1 if self.signed else 0)
        object.__setattr__(self, name, v)


def _cint(kind):
    def make(value=0):
        return _CInt(kind, value) if type(value) is V.SymInt else kind(value)
    return make


BUILTINS = {
    int: _int, str: _str, bytes: _bytes, bytearray: _bytearray, type: _type,
    set: _set, frozenset: _frozenset, dict: _dict, range: _range,
    float: _float, memoryview: _memoryview, sum: _sum,
}
BUILTINS.update((k, _cint(k)) for k in (
    ctypes.c_int8, ctypes.c_int16, ctypes.c_int32, ctypes.c_int64,
    ctypes.c_uint8, ctypes.c_uint16, ctypes.c_uint32, ctypes.c_uint64))


def _dict_method(d, name, args, kw):
    if name == "get":
        default = args[1] if len(args) > 1 else None
        v = dict_lookup(d, args[0])
        return default if v is _missing else v
    if name == "pop":
        k = find(list(d), args[0])
        if k is _missing:
            if len(args) > 1:
                return args[1]
            raise KeyError(args[0])
        return dict.pop(d, k)
    if name == "setdefault":
        k = find(list(d), args[0])
        if k is not _missing:
            return dict.__getitem__(d, k)
        v = args[1] if len(args) > 1 else None
        E.ENGINE.sym_keys = True
        d[args[0]] = v
        return v
    if name == "__contains__":
        return ks__in(args[0], d)
    if name == "__getitem__":
        return ks__get(d, args[0])
    if name == "update":
        for a in args:
            pairs = a.items() if hasattr(a, "items") else a
            for k, v in list(pairs):
                ks__set(d, k, v)
        for k, v in kw.items():
            d[k] = v
        return None
    raise AssertionError(name)


DICT1 = {"get", "pop", "setdefault", "__contains__", "__getitem__"}


def _set_method(s, name, args):
    if name == "add":
        return set_add(s, _force_pick(args[0]))
    if name in ("discard", "remove"):
        k = find(list(s), args[0])
        if k is _missing:
            if name == "remove":
                raise KeyError(args[0])
            return None
        return set.discard(s, k)
    if name == "__contains__":
        return ks__in(args[0], s)
    if name == "update":
        for a in args:
            for x in list(a):
                set_add(s, x)
        return None
    if name in ("union", "intersection", "difference",
                "symmetric_difference"):
        r = set(s)
        kind = {"union": "or", "intersection": "and", "difference": "sub",
                "symmetric_difference": "xor"}[name]
        for a in args:
            r = SET_BIN[kind](r, list(a))
        return r
    if name in ("difference_update", "intersection_update",
                "symmetric_difference_update"):
        kind = {"d": "sub", "i": "and", "s": "xor"}[name[0]]
        r = set(s)
        for a in args:
            r = SET_BIN[kind](r, list(a))
        s.clear()
        for x in r:
            set.add(s, x)
        return None
    if name == "issubset":
        o = list(args[0])
        return all(_mem(x, o) for x in list(s))
    if name == "issuperset":
        return all(_mem(x, s) for x in list(args[0]))
    if name == "isdisjoint":
        return not any(_mem(x, s) for x in list(args[0]))
    raise AssertionError(name)


SET_METHODS = {"add", "discard", "remove", "__contains__", "update", "union",
               "intersection", "difference", "symmetric_difference",
               "difference_update", "intersection_update",
               "symmetric_difference_update", "issubset", "issuperset",
               "isdisjoint"}
_BUILTIN_METHOD = type([].append)


def _list_method(l, name, args):
    if name == "index":
        for i, x in enumerate(l):
            if V.mkbool(V.deep_eq(x, args[0])):
                return i
        raise ValueError("not in list")
    if name == "count":
        return _sum([1 for x in l if V.mkbool(V.deep_eq(x, args[0]))])
    for i, x in enumerate(l):
        if V.mkbool(V.deep_eq(x, args[0])):
            del l[i]
            return None
    raise ValueError("list.remove(x): x not in list")


def _join(sep, it):
    it = list(it)
    if not any(is_sym(x) for x in it):
        return sep.join(it)
    if type(sep) is bytes:
        return V.SymBytes(list(sep)).join(it)
    out = None
    for x in it:
        if type(x) is V.SymPick:
            x = x.force()
        if not isinstance(x, type(sep)):
            raise TypeError("sequence item: expected %s instance"
                            % type(sep).__name__)
        out = x if out is None else out + sep + x
    return out


def ks__call(f, /, *args, **kw):
    b = BUILTINS.get(f) if type(f) in _TYPES else None
    if b is not None:
        return b(*args, **kw)
    tf = type(f)
    if tf is _BUILTIN_METHOD:
        s = f.__self__
        ts = type(s)
        name = f.__name__
        if ts is dict or ts is collections.defaultdict or \
                ts is collections.OrderedDict:
            if name in DICT1 and args and slow(s, args[0]):
                return _dict_method(s, name, args, kw)
            if name == "update" and (E.ENGINE.sym_keys or _needs(*args)):
                return _dict_method(s, name, args, kw)
        elif ts is set or ts is frozenset:
            if name in SET_METHODS and args and (
                    E.ENGINE.sym_keys or has_sym(args[0]) or
                    _needs(*args)):
                return _set_method(s, name, args)
        elif ts is list:
            if name in ("index", "count", "remove") and args and (
                    has_sym(args[0]) or any(has_sym(x) for x in s)):
                return _list_method(s, name, args)
        elif ts is str:
            if name == "join":
                return _join(s, args[0])
            if name == "format" and any(
                    is_sym(x) for x in list(args) + list(kw.values())):
                return _str_format(s, args, kw)
            if name in ("startswith", "endswith", "split", "partition",
                        "rsplit", "rpartition", "find", "index", "count",
                        "replace") and any(is_sym(x) for x in args):
                return getattr(V.SymStr(list(s.encode("utf-8"))), name)(
                    *args)
        elif ts is bytes:
            if name == "join":
                return _join(s, args[0])
            if name in ("startswith", "endswith", "find", "index") and \
                    args and is_sym(args[0]):
                return getattr(V.SymBytes(list(s)), name)(*args)
        elif f is builtins.any:
            return _any(*args)
        elif ts is re.Pattern:
            if any(is_sym(x) for x in args):
                return regex.method(f.__self__, name, args, kw)
        elif s is int and name == "from_bytes" and V.is_sym(args[0]):
            from . import structmodel
            order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
            return structmodel.elems_to_int(
                V.elems_of(args[0]), order == "big",
                kw.get("signed", False))
        elif f is builtins.sum:
            return _sum(*args, **kw)
        elif f is builtins.hash and has_sym(args[0]):
            E.ENGINE.die(E.Unsupported("hash() of a symbolic value"))
    elif tf is _METHOD_DESCR:
        # dict.pop(d, k) and the like
        if args and f.__objclass__ in (dict, set, list) and \
                isinstance(args[0], f.__objclass__) and not is_sym(args[0]):
            return ks__call(getattr(args[0], f.__name__), *args[1:], **kw)
    elif tf is types.FunctionType and f in RE_FUNCS and any(is_sym(x) for x in args):
        return regex.function(f.__name__, *args, **kw)
    elif tf is functools.partial and f.func in BUILTINS:
        return ks__call(f.func, *(f.args + args), **dict(f.keywords, **kw))
    elif f is map:
        fn = args[0]
        return map(lambda *a: ks__call(fn, *a), *args[1:])
    return f(*args, **kw)


_METHOD_DESCR = type(dict.pop)
RE_FUNCS = frozenset(getattr(re, n) for n in regex.FUNCS + ("sub", "subn"))
_TYPES = (type, type(ctypes.c_int32))

HELPERS = {k: v for k, v in list(globals().items()) if k.startswith("ks__")}

"""The struct module over symbolic values (bit-precise; range errors fork)."""
import re
import struct as real
import types

import z3

from . import engine as E
from . import values as V

error = real.error

_STD = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4,
        "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8}
_NAT = dict((c, real.calcsize("@" + c)) for c in "xcbB?hHiIlLqQnNefdP")
_INTS = "bBhHiIlLqQnN"

TOKEN = re.compile("\ue000(\\d+)\ue001")


def _text(fmt):
    if isinstance(fmt, (bytes, bytearray)):
        return bytes(fmt).decode("ascii")
    if type(fmt) is V.SymFmt:
        return str(fmt)
    if type(fmt) is V.SymStr:
        E.ENGINE.die(E.Unsupported("struct format of symbolic text"))
    if not isinstance(fmt, str):
        raise TypeError("Struct() argument 1 must be a str or bytes object")
    return fmt


def to_bits(v, size, signed, exc, msg):
    """The low bits of an int value after its range check."""
    lo, hi = ((-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed
              else (0, (1 << (8 * size)) - 1))
    if type(v) is V.SymBool:
        v = v._int()
    if type(v) is not V.SymInt:
        v = int(v)
        if not lo <= v <= hi:
            raise exc(msg)
        return V.bv(v & ((1 << (8 * size)) - 1), 8 * size)
    w = v.e.size()
    if not (w <= 8 * size and signed):
        a = V._ext(v.e, max(w, 8 * size + 2))
        n = a.size()
        fits = z3.And(a >= V.bv(lo, n), a <= V.bv(hi, n))
        if not E.ENGINE.always(fits) and not E.ENGINE.fork(fits):
            raise exc(msg)
        w, e = n, a
    else:
        e = v.e
    e = V._ext(e, max(w, 8 * size))
    return z3.Extract(8 * size - 1, 0, e)


def bits_to_elems(e, size, big):
    out = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(size)]
    out = [x.as_long() if z3.is_bv_value(x) else x for x in out]
    return out[::-1] if big else out


def elems_to_int(elems, big, signed):
    if all(type(x) is int for x in elems):
        return int.from_bytes(bytes(elems), "big" if big else "little",
                              signed=signed)
    es = [V.bv(x, 8) if type(x) is int else x for x in elems]
    if not big:
        es = es[::-1]
    e = z3.Concat(*es) if len(es) > 1 else es[0]
    return V.mkint(e if signed else z3.ZeroExt(1, e))


def int_to_bytes(v, length, byteorder, signed, exc):
    length = length.__index__() if type(length) is V.SymInt else length
    e = to_bits(v, length, signed, exc, "int too big to convert")
    return V.mkbytes(bits_to_elems(e, length, byteorder == "big"))


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        s = _text(fmt)
        self._real = None
        self.items = []        # (char, count) with count maybe SymInt
        if "\ue000" not in s:
            self._real = real.Struct(s)
            self.items = None
            self._s = s
            return
        self.mode = "@"
        pos = 0
        if s and s[0] in "@=<>!":
            self.mode, pos = s[0], 1
        while pos < len(s):
            count = None
            m = TOKEN.match(s, pos)
            if m:
                count = E.ENGINE.tokens[m.group(0)]
                pos = m.end()
                # "-5s" is not a format
                if count < 0:
                    raise error("bad char in struct format")
            else:
                m = re.compile(r"\d+").match(s, pos)
                if m:
                    count = int(m.group(0))
                    pos = m.end()
            if pos >= len(s):
                raise error("repeat count given without format specifier")
            c = s[pos]
            if c.isspace() and count is None:
                pos += 1
                continue
            if c not in (_NAT if self.mode == "@" else _STD) and c not in "sp":
                raise error("bad char in struct format")
            self.items.append([c, count])
            pos += 1

    def _parse_concrete(self):
        s = self._s
        mode, pos, items = "@", 0, []
        if s and s[0] in "@=<>!":
            mode, pos = s[0], 1
        for m in re.finditer(r"(\d*)\s*([a-zA-Z?])", s[pos:]):
            items.append([m.group(2),
                          int(m.group(1)) if m.group(1) else None])
        self.items, self.mode = items, mode

    @property
    def size(self):
        if self._real is not None:
            return self._real.size
        total = 0
        for c, n in self.items:
            total = total + self._isize(c, n, total)
        return total

    def _table(self):
        return _NAT if self.mode == "@" else _STD

    def _isize(self, c, n, at):
        n1 = 1 if n is None else n
        if c in "sp":
            return n1
        w = self._table()[c]
        pad = 0
        if self.mode == "@" and w > 1:
            if type(at) is not int:
                E.ENGINE.die(E.Unsupported("native alignment, symbolic"))
            pad = -at % w
        return pad + w * n1

    def _force(self, remaining):
        """Makes repeat counts concrete, given the available bytes."""
        if self._real is not None:
            if self.items is None:
                self._parse_concrete()
            return
        if self.size > remaining:
            raise error("unpack requires a larger buffer")
        for it in self.items:
            if type(it[1]) is V.SymInt:
                it[1] = it[1].__index__()

    def _walk(self):
        at = 0
        for c, n in self.items:
            if c in "sp":
                n = 1 if n is None else n
                yield c, n, at
                at += n
                continue
            w = self._table()[c]
            if self.mode == "@" and w > 1:
                at += -at % w
            for _ in range(1 if n is None else n):
                yield c, w, at
                at += w

    def pack(self, *args):
        if self._real is not None and not any(V.is_sym(a) for a in args):
            return self._real.pack(*args)
        self._force(1 << 20)
        big = self.mode in ">!" or (self.mode == "=" and False)
        out, args, i = [], list(args), 0
        slots = [x for x in self._walk() if x[0] != "x"]
        if len(slots) != len(args):
            raise error("pack expected %d items for packing (got %d)"
                        % (len(slots), len(args)))
        for c, w, at in self._walk():
            while len(out) < at:
                out.append(0)
            if c == "x":
                out.append(0)
                continue
            v = args[i]
            i += 1
            if c == "s":
                el = V.elems_of(v)
                if el is None or isinstance(v, memoryview):
                    raise error("argument for 's' must be a bytes object")
                out.extend((el + [0] * w)[:w])
            elif c == "c":
                el = V.elems_of(v)
                if el is None or len(el) != 1:
                    raise error("char format requires a bytes object of "
                                "length 1")
                out.extend(el)
            elif c == "?":
                t = V.as_bool_term(v) if V.is_sym(v) else z3.BoolVal(bool(v))
                x = z3.simplify(z3.If(t, V.bv(1, 8), V.bv(0, 8)))
                out.append(x.as_long() if z3.is_bv_value(x) else x)
            elif c in _INTS:
                if type(v) not in (V.SymInt, V.SymBool) and \
                        (type(v) is V.SymRat or not hasattr(v, "__index__")):
                    raise error("required argument is not an integer")
                signed = c.islower()
                e = to_bits(v, w, signed, error,
                            "'%s' format requires a number in range" % c)
                out.extend(bits_to_elems(e, w, big))
            else:
                if V.is_sym(v):
                    E.ENGINE.die(E.Unsupported("pack of a symbolic float"))
                out.extend(real.pack(
                    (self.mode if self.mode != "@" else "=") + c, v))
        return V.mkbytes(out)

    def _unpack(self, elems, base):
        big = self.mode in ">!"
        out = []
        for c, w, at in self._walk():
            part = elems[base + at:base + at + w]
            if c == "x":
                continue
            if c in "sc":
                out.append(V.mkbytes(part))
            elif c == "?":
                out.append(V.elem_int(part[0]) != 0)
            elif c in _INTS:
                out.append(elems_to_int(part, big, c.islower()))
            else:
                b = V.mkbytes(part)
                if type(b) is not bytes:
                    E.ENGINE.die(E.Unsupported("unpack of symbolic float"))
                out.append(real.unpack(
                    (self.mode if self.mode != "@" else "=") + c, b)[0])
        return tuple(out)

    def unpack_from(self, buffer, offset=0):
        if self._real is not None and not V.is_sym(buffer) \
                and not V.is_sym(offset):
            return self._real.unpack_from(buffer, offset)
        elems = V.elems_of(buffer)
        if elems is None:
            raise TypeError("a bytes-like object is required")
        n = len(elems)
        if type(offset) is V.SymInt:
            if offset > n:
                raise error("unpack_from requires a larger buffer")
            if offset < -n:
                raise error("offset out of range")
            offset = offset.__index__()
        if offset < 0:
            if offset + n < 0:
                raise error("offset %d out of range" % offset)
            offset += n
        remaining = n - offset
        if remaining < 0:
            raise error("unpack_from requires a buffer")
        self._force(remaining)
        if self.size > remaining:
            raise error("unpack_from requires a larger buffer")
        return self._unpack(elems, offset)

    def unpack(self, buffer):
        if self._real is not None and not V.is_sym(buffer):
            return self._real.unpack(buffer)
        elems = V.elems_of(buffer)
        if elems is None:
            raise TypeError("a bytes-like object is required")
        if self.size != len(elems):
            raise error("unpack requires a buffer of another size")
        self._force(len(elems))
        return self._unpack(elems, 0)

    def iter_unpack(self, buffer):
        n = self.size
        if type(n) is not int or n == 0 or len(buffer) % n:
            raise error("iterative unpacking requires a multiple")
        return iter([self.unpack_from(buffer, i)
                     for i in range(0, len(buffer), n)])

    def pack_into(self, buffer, offset, *args):
        data = self.pack(*args)
        if offset < 0:
            offset += len(buffer)
        if offset < 0 or offset + len(data) > len(buffer):
            raise error("pack_into requires a larger buffer")
        if not isinstance(buffer, (bytearray, memoryview)):
            raise TypeError("read-write bytes-like object expected")
        buffer[offset:offset + len(data)] = data


def pack(fmt, *args):
    return Struct(fmt).pack(*args)


def unpack(fmt, buffer):
    return Struct(fmt).unpack(buffer)


def unpack_from(fmt, /, buffer, offset=0):
    return Struct(fmt).unpack_from(buffer, offset)


def iter_unpack(fmt, buffer):
    return Struct(fmt).iter_unpack(buffer)


def pack_into(fmt, buffer, offset, *args):
    return Struct(fmt).pack_into(buffer, offset, *args)


def calcsize(fmt):
    return Struct(fmt).size


def module():
    m = types.ModuleType("struct")
    for n in ("error", "Struct", "pack", "unpack", "unpack_from",
              "iter_unpack", "pack_into", "calcsize"):
        setattr(m, n, globals()[n])
    return m

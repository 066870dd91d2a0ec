"""Models of the library modules the code under test imports.  Every model
delegates to the real module when nothing symbolic is involved."""
import calendar as real_calendar
import collections
import datetime as real_datetime
import gzip as real_gzip
import io as real_io
import json as real_json
import random as real_random
import time as real_time
import types
import zlib as real_zlib

import z3

from . import engine as E
from . import structmodel
from . import values as V

try:
    import snappy as real_snappy
except ImportError:
    real_snappy = None


def unsupported(what):
    E.ENGINE.die(E.Unsupported(what))


class Proxy(types.ModuleType):
    """A module whose listed names are replaced, the rest delegated."""

    def __init__(self, real, **names):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        for k, v in names.items():
            self.__dict__[k] = v

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


# -- zlib.crc32 ---------------------------------------------------------------

def crc32(data, value=0):
    """A fresh 32-bit variable tied to the input bits by the (linear) CRC
    equations, in row-reduced form so the solver only has to propagate."""
    elems = V.elems_of(data)
    if elems is None:
        raise TypeError("a bytes-like object is required")
    if not V.is_sym(data) and not V.is_sym(value):
        return real_zlib.crc32(data, value)
    if V.is_sym(value):
        unsupported("crc32 with symbolic start")
    key = (value,) + tuple(
        x if type(x) is int else (x.get_id(),) for x in elems)
    hit = E.ENGINE.crcs.get(key)
    if hit is None:
        hit = _crc_var(elems, value)
        E.ENGINE.crcs[key] = hit
        E.ENGINE.keep.append(elems)
    return V.mkint(z3.ZeroExt(1, hit))


def _crc_var(elems, value):
    """Keeps, per path, one row-reduced GF(2) system over the bits of all
    inputs and checksums; new or changed rows are asserted."""
    eng = E.ENGINE
    raw = bytearray(x if type(x) is int else 0 for x in elems)
    base = real_zlib.crc32(raw, value)
    cols, bits = {}, {}         # bit -> 32-bit contribution, its term
    for i, x in enumerate(elems):
        if type(x) is int:
            continue
        for b in range(8):
            raw[i] = 1 << b
            k, t = _atom(x, b)
            bits[k] = t
            cols[k] = cols.get(k, 0) ^ real_zlib.crc32(raw, value) ^ base
        raw[i] = 0
    eng.fresh += 1
    c = z3.BitVec("crc!%d" % eng.fresh, 32)
    gf = eng.gf_cols
    if not gf:
        gf["terms"] = [None]    # column 0 is the constant
        gf["index"] = {}
        gf["crc"] = 0           # mask of the columns of checksum bits

    def col(k, t, is_crc=False):
        n = gf["index"].get(k)
        if n is None:
            n = gf["index"][k] = len(gf["terms"])
            gf["terms"].append(t)
            if is_crc:
                gf["crc"] |= 1 << n
        return n

    idx = dict((k, col(k, bits[k])) for k in sorted(cols) if cols[k])
    changed = set()
    for j in range(32):
        k, t = _atom(c, j)
        r = 1 << col(k, t, True) | (base >> j & 1)
        for k, n in idx.items():
            if cols[k] >> j & 1:
                r ^= 1 << n
        for p, row in eng.gf.items():
            if r >> p & 1:
                r ^= row
        cand = (r & ~gf["crc"] & ~1) or (r & ~1)
        if not cand:
            continue
        p = (cand & -cand).bit_length() - 1
        for q, row in eng.gf.items():
            if row >> p & 1:
                eng.gf[q] = row ^ r
                changed.add(q)
        eng.gf[p] = r
        changed.add(p)
    eqs = []
    for p in sorted(changed):
        r = eng.gf[p]
        acc = None
        rest = r & ~1
        while rest:
            n = (rest & -rest).bit_length() - 1
            rest &= rest - 1
            t = gf["terms"][n]
            acc = t if acc is None else acc ^ t
        eqs.append(acc == V.bv(r & 1, 1))

    def val(m):
        return V.bv(real_zlib.crc32(bytes(
            x if type(x) is int else
            m.eval(x, model_completion=True).as_long() for x in elems),
            value), 32)

    eng.define(c, val, z3.And(eqs))
    return c


def _atom(x, b):
    """Bit b of a term: its identity (seen through extraction) and term."""
    if z3.is_app_of(x, z3.Z3_OP_EXTRACT):
        hi, lo = x.params()
        x, b = x.arg(0), b + lo
    E.ENGINE.keep.append(x)
    return (x.get_id(), b), z3.Extract(b, b, x)


def adler32(elems):
    s = V.mkbytes(elems)
    if type(s) is bytes:
        return real_zlib.adler32(s)
    unsupported("adler32")


# -- deflate (stored blocks) --------------------------------------------------

def deflate_raw(elems):
    out = []
    i = 0
    while True:
        part = elems[i:i + 65535]
        i += 65535
        last = i >= len(elems)
        n = len(part)
        out += [1 if last else 0, n & 255, n >> 8,
                (~n) & 255, ((~n) >> 8) & 255]
        out += part
        if last:
            return out


def inflate_raw(elems, pos):
    """Stored blocks only; other concrete blocks go to the real zlib."""
    out = []
    while True:
        if pos >= len(elems):
            raise EOFError("Compressed file ended before the end-of-stream "
                           "marker was reached")
        head = elems[pos]
        if type(head) is not int:
            unsupported("inflate of symbolic block header")
        if (head >> 1) & 3 != 0:
            tail = V.mkbytes(elems[pos:])
            if type(tail) is not bytes or out:
                unsupported("inflate of symbolic compressed block")
            d = real_zlib.decompressobj(-15)
            r = d.decompress(tail) + d.flush()
            if not d.eof:
                raise EOFError("Compressed file ended before the "
                               "end-of-stream marker was reached")
            return list(r), len(elems) - len(d.unused_data)
        if pos + 5 > len(elems):
            raise EOFError("Compressed file ended early")
        h = elems[pos + 1:pos + 5]
        if not all(type(x) is int for x in h):
            unsupported("inflate of symbolic block length")
        n = h[0] | h[1] << 8
        if (h[2] | h[3] << 8) != n ^ 0xFFFF:
            raise real_zlib.error("invalid stored block lengths")
        pos += 5
        if pos + n > len(elems):
            raise EOFError("Compressed file ended early")
        out += elems[pos:pos + n]
        pos += n
        if head & 1:
            return out, pos


_GZ_HEAD = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 2, 255]


def gz_compress(data):
    elems = V.elems_of(data)
    crc = crc32(V.mkbytes(elems))
    return V.mkbytes(
        _GZ_HEAD + deflate_raw(elems) +
        V.elems_of(structmodel.pack("<II", crc, len(elems))))


def gz_decompress(data):
    if not V.is_sym(data):
        return real_gzip.decompress(bytes(data))
    elems = V.elems_of(data)
    out, pos = [], 0
    while pos < len(elems):
        if len(elems) - pos < 10:
            raise EOFError("Compressed file ended early")
        if not V.mkbool(z3.And(V.elem_eq(elems[pos], 0x1f),
                               V.elem_eq(elems[pos + 1], 0x8b))):
            raise real_gzip.BadGzipFile("Not a gzipped file")
        if elems[pos + 2] != 8 or elems[pos + 3] != 0:
            unsupported("gzip header flags")
        part, pos = inflate_raw(elems, pos + 10)
        if pos + 8 > len(elems):
            raise EOFError("Compressed file ended early")
        want = V.elems_of(structmodel.pack(
            "<II", crc32(V.mkbytes(part)), len(part)))
        if not V.mkbool(V.bytes_eq_term(elems[pos:pos + 8], want)):
            raise real_gzip.BadGzipFile("CRC check failed")
        pos += 8
        out += part
    return V.mkbytes(out)


class GzipFile(object):
    def __init__(self, filename=None, mode=None, compresslevel=9,
                 fileobj=None, mtime=None):
        if fileobj is None:
            unsupported("GzipFile on a path")
        self.fileobj = fileobj
        mode = mode or getattr(fileobj, "mode", "rb")
        self.writing = mode[0] in "wax"
        self.closed = False
        if self.writing:
            self.parts = []
        else:
            self.data = BytesIO(gz_decompress(fileobj.read()))

    def write(self, data):
        e = V.elems_of(data)
        if e is None:
            raise TypeError("a bytes-like object is required")
        self.parts += e
        return len(e)

    def flush(self, *a):
        pass

    def read(self, size=-1):
        return self.data.read(size)

    def readable(self):
        return not self.writing

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.writing:
            data = V.mkbytes(self.parts)
            if type(data) is bytes:
                self.fileobj.write(real_gzip.compress(data, mtime=0))
            else:
                self.fileobj.write(gz_compress(data))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter([self.read()])


def _gzip_compress(data, compresslevel=9, *, mtime=None):
    if V.is_sym(data):
        return gz_compress(data)
    return real_gzip.compress(data, compresslevel, mtime=0)


gzip = Proxy(real_gzip, GzipFile=GzipFile, compress=_gzip_compress,
             decompress=lambda data: gz_decompress(data),
             open=lambda f, mode="rb", *a, **k: GzipFile(fileobj=f, mode=mode))


class _Compress(object):
    def __init__(self, wbits):
        self.wbits = wbits
        self.parts = []

    def compress(self, data):
        self.parts += V.elems_of(data)
        return b""

    def flush(self, *a):
        data = V.mkbytes(self.parts)
        self.parts = []
        if type(data) is bytes:
            o = real_zlib.compressobj(wbits=self.wbits)
            return o.compress(data) + o.flush()
        if self.wbits >= 25:
            return gz_compress(data)
        if self.wbits < 0:
            return V.mkbytes(deflate_raw(V.elems_of(data)))
        unsupported("zlib container")


class _Decompress(object):
    unused_data = b""
    unconsumed_tail = b""
    eof = True

    def __init__(self, wbits):
        self.wbits = wbits

    def decompress(self, data, *a):
        if not V.is_sym(data):
            return real_zlib.decompress(data, self.wbits)
        if self.wbits >= 25:
            return gz_decompress(data)
        if self.wbits < 0:
            return V.mkbytes(inflate_raw(V.elems_of(data), 0)[0])
        unsupported("zlib container")

    def flush(self, *a):
        return b""


def _zc(data, level=-1, wbits=15):
    c = _Compress(wbits)
    c.compress(data)
    return c.flush()


zlib = Proxy(
    real_zlib, crc32=crc32,
    compressobj=lambda level=-1, method=8, wbits=15, *a, **k:
        _Compress(wbits),
    decompressobj=lambda wbits=15, *a, **k: _Decompress(wbits),
    compress=_zc,
    decompress=lambda data, wbits=15, bufsize=0:
        _Decompress(wbits).decompress(data))

binascii = Proxy(__import__("binascii"), crc32=crc32)


# -- snappy -------------------------------------------------------------------

def snappy_compress(data, *a, **k):
    if isinstance(data, str):
        data = data.encode("utf-8")
    elems = V.elems_of(data)
    if elems is None:
        raise TypeError("a bytes-like object is required")
    if not V.is_sym(data):
        return real_snappy.compress(bytes(data))
    out, n = [], len(elems)
    while True:
        out.append((n & 0x7f) | (0x80 if n > 0x7f else 0))
        n >>= 7
        if not n:
            break
    i = 0
    while i < len(elems):
        part = elems[i:i + 65536]
        n = len(part) - 1
        if n < 60:
            out.append(n << 2)
        elif n < 256:
            out += [60 << 2, n]
        else:
            out += [61 << 2, n & 255, n >> 8]
        out += part
        i += 65536
    return V.mkbytes(out)


class SnappyError(Exception):
    pass


def snappy_uncompress(data, *a, **k):
    if not V.is_sym(data):
        return real_snappy.uncompress(bytes(data))
    el = V.elems_of(data)

    def conc(x):
        return x if type(x) is int else E.ENGINE.concretise(x, False, 300)

    def bad():
        raise UncompressError("Error while decompressing: invalid input")

    pos, total, shift = 0, 0, 0
    while True:
        if pos >= len(el) or shift > 28:
            bad()
        b = conc(el[pos])
        pos += 1
        total |= (b & 0x7f) << shift
        shift += 7
        if b < 0x80:
            break
    out = []
    while pos < len(el):
        tag = conc(el[pos])
        pos += 1
        kind = tag & 3
        if kind == 0:
            n = tag >> 2
            if n >= 60:
                k = n - 59
                if pos + k > len(el):
                    bad()
                n = sum(conc(el[pos + j]) << (8 * j) for j in range(k))
                pos += k
            n += 1
            if pos + n > len(el):
                bad()
            out += el[pos:pos + n]
            pos += n
            continue
        if kind == 1:
            k, n = 1, 4 + ((tag >> 2) & 7)
        else:
            k, n = (2 if kind == 2 else 4), (tag >> 2) + 1
        if pos + k > len(el):
            bad()
        off = sum(conc(el[pos + j]) << (8 * j) for j in range(k))
        if kind == 1:
            off |= (tag >> 5) << 8
        pos += k
        if off == 0 or off > len(out):
            bad()
        for _ in range(n):
            out.append(out[-off])
    if len(out) != total:
        bad()
    return V.mkbytes(out)


if real_snappy is not None:
    UncompressError = real_snappy.UncompressError
    snappy = Proxy(real_snappy, compress=snappy_compress,
                   uncompress=snappy_uncompress, decompress=snappy_uncompress)
else:
    UncompressError = SnappyError
    snappy = None


# -- BytesIO ------------------------------------------------------------------

class BytesIO(object):
    def __init__(self, initial=b""):
        e = V.elems_of(initial)
        if e is None:
            if initial is None:
                e = []
            else:
                raise TypeError("a bytes-like object is required")
        self.b = list(e)
        self.pos = 0
        self.closed = False

    def _ok(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._ok()
        e = V.elems_of(data)
        if e is None:
            raise TypeError("a bytes-like object is required, not %r"
                            % type(data).__name__)
        if self.pos > len(self.b):
            self.b += [0] * (self.pos - len(self.b))
        self.b[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        return len(e)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, n=-1):
        self._ok()
        if n is None:
            n = -1
        if type(n) is V.SymInt:
            left = max(0, len(self.b) - self.pos)
            if n < 0 or n >= left:
                n = -1
            else:
                n = n.__index__()
        if n < 0:
            r = self.b[self.pos:]
        else:
            r = self.b[self.pos:self.pos + n]
        self.pos += len(r)
        return V.mkbytes(r)

    read1 = read

    def readinto(self, buf):
        r = self.read(len(buf))
        buf[:len(r)] = r
        return len(r)

    def getvalue(self):
        self._ok()
        return V.mkbytes(self.b)

    def getbuffer(self):
        return self.getvalue()

    def seek(self, pos, whence=0):
        self._ok()
        if type(pos) is V.SymInt:
            pos = pos.__index__()
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value")
            self.pos = pos
        elif whence == 1:
            self.pos = max(0, self.pos + pos)
        else:
            self.pos = max(0, len(self.b) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.b[n:]
        return n

    def readable(self):
        return True

    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        self._ok()
        return self

    def __exit__(self, *a):
        self.close()


io = Proxy(real_io, BytesIO=BytesIO)


# -- random -------------------------------------------------------------------

def fresh_index(n, what):
    """An arbitrary index below n, decided by forking."""
    hook = E.ENGINE.ctx.env_index if E.ENGINE.ctx else None
    if hook is None:
        unsupported("randomness outside a harness")
    return hook(what, n)


def r_choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    return seq[fresh_index(len(seq), "random.choice")]


def r_randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if len(r) == 0:
        raise ValueError("empty range for randrange()")
    return r[fresh_index(len(r), "random.randrange")]


def r_randint(a, b):
    return r_randrange(a, b + 1)


def r_shuffle(x):
    for i in reversed(range(1, len(x))):
        j = fresh_index(i + 1, "random.shuffle")
        x[i], x[j] = x[j], x[i]


def r_sample(population, k):
    pop = list(population)
    out = []
    for _ in range(k):
        out.append(pop.pop(fresh_index(len(pop), "random.sample")))
    return out


random = Proxy(
    real_random, choice=r_choice, randrange=r_randrange, randint=r_randint,
    shuffle=r_shuffle, sample=r_sample,
    random=lambda: unsupported("random.random"))


# -- time ---------------------------------------------------------------------

class SymStructTime(object):
    def __init__(self, epoch):
        self.epoch = epoch


US = 1000000


def _us(d):
    """(seconds, microseconds) of a real timedelta."""
    n = d // real_datetime.timedelta(microseconds=1)
    return n // US, n % US


def _add(a, b):
    s, m = a[0] + b[0], a[1] + b[1]
    if not V.is_sym(a[1]) and a[1] == 0 or not V.is_sym(b[1]) and b[1] == 0:
        return s, m
    return (s + 1, m - US) if m >= US else (s, m)


def _neg(a):
    if not V.is_sym(a[1]) and a[1] == 0:
        return -a[0], 0
    return (-a[0] - 1, US - a[1]) if a[1] > 0 else (-a[0], 0)


class _Moment(object):
    """Whole seconds and 0 <= microseconds < 10**6, both may be symbolic."""

    def __init__(self, secs, micro):
        self.at = secs, micro

    __getattr__ = V.missing

    @property
    def us(self):
        return self.at[0] * US + self.at[1]

    def __eq__(self, o):
        a = self._at(o)
        if a is None:
            return False
        return V.land(self.at[0] == a[0], self.at[1] == a[1])

    def __ne__(self, o):
        return V.lnot(self.__eq__(o))

    def _less(self, o, swap=False):
        a, b = self.at, self._at(o)
        if b is None:
            return NotImplemented
        if swap:
            a, b = b, a
        return V.lor(a[0] < b[0], V.land(a[0] == b[0], a[1] < b[1]))

    def __lt__(self, o):
        return self._less(o)

    def __gt__(self, o):
        return self._less(o, True)

    def __le__(self, o):
        return V.lnot(self._less(o, True))

    def __ge__(self, o):
        return V.lnot(self._less(o))

    def __hash__(self):
        return V.HASH


class SymTimedelta(_Moment):
    __class__ = property(lambda self: real_datetime.timedelta)

    def total_seconds(self):
        return V.SymRat(self.us, US, self.at)

    @property
    def days(self):
        return self.at[0] // 86400

    @property
    def seconds(self):
        return self.at[0] % 86400

    @property
    def microseconds(self):
        return self.at[1]

    def _at(self, o):
        if type(o) is SymTimedelta:
            return o.at
        if type(o) is real_datetime.timedelta:
            return _us(o)

    def __neg__(self):
        return SymTimedelta(*_neg(self.at))

    def __abs__(self):
        return self if self.at[0] >= 0 else -self

    def __bool__(self):
        return bool(V.lor(self.at[0] != 0, self.at[1] != 0))

    def __floordiv__(self, o):
        if isinstance(o, real_datetime.timedelta):
            n = o // real_datetime.timedelta(microseconds=1)
            if n == US:
                return self.at[0]
            return self.us // n
        unsupported("timedelta division")

    def __mod__(self, o):
        return self - (self // o) * o

    def __divmod__(self, o):
        return self // o, self % o

    def __mul__(self, n):
        us = self.us * n
        if type(us) not in (int, V.SymInt):
            unsupported("timedelta times a fraction")
        return SymTimedelta(us // US, us % US)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, real_datetime.timedelta):
            n = o // real_datetime.timedelta(microseconds=1)
            return V.SymRat(self.us, n, self.at if n == US else None)
        unsupported("timedelta division")

    def __add__(self, o):
        a = self._at(o)
        if a is None:
            return NotImplemented
        return SymTimedelta(*_add(self.at, a))

    __radd__ = __add__

    def __sub__(self, o):
        a = self._at(o)
        if a is None:
            return NotImplemented
        return SymTimedelta(*_add(self.at, _neg(a)))

    def __rsub__(self, o):
        if type(o) is real_datetime.datetime:
            d = SymDateTime(0, 0, _utc(o.tzinfo))
            return d._new(_add(d._at(o), _neg(self.at)))
        return SymTimedelta(*_add(self._at(o), _neg(self.at)))


def _zone():
    """Seconds the local time zone is ahead of UTC."""
    return getattr(E.ENGINE, "zone", None) or 0


def _utc(tz):
    if tz is None or tz is real_datetime.timezone.utc or \
            tz == real_datetime.timezone.utc:
        return tz
    unsupported("time zones other than UTC")


class SymDateTime(_Moment):
    """A datetime, naive or in UTC; at counts from 1970-01-01."""
    __class__ = property(lambda self: real_datetime.datetime)

    def __init__(self, secs, micro, tzinfo=None):
        _Moment.__init__(self, secs, micro)
        self.tzinfo = tzinfo

    def _new(self, at):
        return SymDateTime(at[0], at[1], self.tzinfo)

    def _at(self, o):
        if type(o) is SymDateTime:
            if (o.tzinfo is None) != (self.tzinfo is None):
                raise TypeError("can't subtract offset-naive and "
                                "offset-aware datetimes")
            return o.at
        if isinstance(o, real_datetime.datetime):
            if (o.tzinfo is None) != (self.tzinfo is None):
                raise TypeError("can't subtract offset-naive and "
                                "offset-aware datetimes")
            return _us(o - real_datetime.datetime(
                1970, 1, 1, tzinfo=o.tzinfo and real_datetime.timezone.utc))

    def __add__(self, o):
        if not isinstance(o, real_datetime.timedelta):
            return NotImplemented
        return self._new(_add(self.at, o.at if type(o) is SymTimedelta
                              else _us(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, real_datetime.timedelta):
            return self._new(_add(self.at, _neg(
                o.at if type(o) is SymTimedelta else _us(o))))
        a = self._at(o)
        if a is None:
            return NotImplemented
        return SymTimedelta(*_add(self.at, _neg(a)))

    def __rsub__(self, o):
        return SymTimedelta(*_add(self._at(o), _neg(self.at)))

    def replace(self, **kw):
        if set(kw) - {"tzinfo", "microsecond"}:
            unsupported("datetime.replace")
        return SymDateTime(self.at[0], kw.get("microsecond", self.at[1]),
                           _utc(kw.get("tzinfo", self.tzinfo)))

    def utcoffset(self):
        return None if self.tzinfo is None else real_datetime.timedelta(0)

    def astimezone(self, tz=None):
        if _utc(tz) is None:
            unsupported("local time zone")
        if self.tzinfo is not None:
            return self
        return SymDateTime(self.at[0] - _zone(), self.at[1], tz)

    def utctimetuple(self):
        return SymStructTime(self.at[0])

    timetuple = utctimetuple

    def timestamp(self):
        z = 0 if self.tzinfo is not None else _zone()
        at = self.at[0] - z, self.at[1]
        return V.SymRat(at[0] * US + at[1], US, at)

    @property
    def microsecond(self):
        return self.at[1]


class _DateTimeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, real_datetime.datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, real_datetime.datetime)

    def __call__(cls, *args, **kw):
        return real_datetime.datetime(*args, **kw)

    def __getattr__(cls, name):
        return getattr(real_datetime.datetime, name)


def _moment(secs, tz):
    if type(secs) is V.SymRat:
        whole = secs.__floor__()
        frac = (secs - whole) * US
        return SymDateTime(whole, frac.__floor__()
                           if type(frac) is V.SymRat else int(frac), tz)
    return SymDateTime(secs, 0, tz)


class DateTime(object, metaclass=_DateTimeMeta):
    """datetime.datetime with the modelled clock and time zone."""
    @staticmethod
    def utcnow():
        return SymDateTime(_clock(), 0)

    @staticmethod
    def now(tz=None):
        return DateTime.fromtimestamp(_clock(), tz)

    today = now

    @staticmethod
    def fromtimestamp(secs, tz=None):
        m = _moment(secs, _utc(tz))
        return m if tz is not None else SymDateTime(
            m.at[0] + _zone(), m.at[1])

    @staticmethod
    def utcfromtimestamp(secs):
        return _moment(secs, None)


class _TimeDeltaMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, real_datetime.timedelta)

    def __subclasscheck__(cls, c):
        return issubclass(c, real_datetime.timedelta)

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(V.is_sym(x) for x in a):
            return real_datetime.timedelta(*a)
        out = real_datetime.timedelta(0)
        for x, n in zip(a, (86400 * US, US, 1, 1000, 60 * US, 3600 * US,
                            7 * 86400 * US)):
            if not V.is_sym(x):
                x = real_datetime.timedelta(microseconds=1) * (x * n)
            elif type(x) is V.SymRat and n == US:
                whole = x.__floor__()
                x = SymTimedelta(whole, ((x - whole) * US).__floor__())
            elif type(x) is not V.SymInt:
                unsupported("timedelta of a fraction")
            elif n % US == 0:
                x = SymTimedelta(x * (n // US), 0)
            else:
                x = SymTimedelta(x * n // US, x * n % US)
            out = x + out
        return out

    def __getattr__(cls, name):
        return getattr(real_datetime.timedelta, name)


class TimeDelta(object, metaclass=_TimeDeltaMeta):
    """datetime.timedelta, of symbolic amounts as well."""


datetime = Proxy(real_datetime, datetime=DateTime, timedelta=TimeDelta)


def _clock():
    c = getattr(E.ENGINE, "clock", None)
    if c is None:
        return int(1500000000)
    return c


def t_gmtime(secs=None):
    if secs is None:
        secs = _clock()
    if not V.is_sym(secs):
        return real_time.gmtime(secs)
    if type(secs) is V.SymRat:
        secs = secs.__floor__()
    return SymStructTime(secs)


def t_localtime(secs=None):
    if secs is None:
        secs = _clock()
    if type(secs) is V.SymRat:
        secs = secs.__floor__()
    if not V.is_sym(secs):
        secs = int(secs)
    secs = secs + _zone()
    return SymStructTime(secs) if V.is_sym(secs) else real_time.gmtime(secs)


def t_time():
    c = _clock()
    return V.SymRat(c, 1) if type(c) is V.SymInt else float(c)


def c_timegm(t):
    if type(t) is SymStructTime:
        return t.epoch
    return real_calendar.timegm(t)


def t_mktime(t):
    secs = c_timegm(t) - _zone()
    return V.SymRat(secs, 1) if V.is_sym(secs) else float(secs)


class _Time(Proxy):
    timezone = altzone = property(lambda self: -_zone())


time = _Time(real_time, gmtime=t_gmtime, time=t_time, localtime=t_localtime,
             sleep=lambda s: None, mktime=t_mktime,
             time_ns=lambda: _clock() * 1000000000)
calendar = Proxy(real_calendar, timegm=c_timegm)


def _six():
    import six as real_six
    return Proxy(real_six, BytesIO=BytesIO)


_MODULES = {}


# -- json ----------------------------------------------------------------------

def _deep_sym(x):
    if V.is_sym(x):
        return True
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(_deep_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_deep_sym(k) or _deep_sym(v) for k, v in x.items())
    return False


def _json_text(elems):
    out = [0x22]
    for e in elems:
        c = V.elem_int(e)
        if c == 0x22 or c == 0x5c:
            out += [0x5c, e]
        elif V.land(c >= 0x20, c <= 0x7e):
            out.append(e)
        else:
            unsupported("json of control or non-ASCII characters")
    return out + [0x22]


def _json_dump(x, item, colon):
    t = type(x)
    if t is V.SymPick:
        return _json_dump(x.force(), item, colon)
    if t is V.SymStr:
        return _json_text(x.b)
    if not _deep_sym(x):
        return list(real_json.dumps(x, separators=(item, colon)).encode())
    if t in (list, tuple):
        out = [0x5b]
        for i, y in enumerate(x):
            out += list(item.encode()) * (i > 0) + _json_dump(y, item, colon)
        return out + [0x5d]
    if isinstance(x, dict):
        out = [0x7b]
        for i, (k, v) in enumerate(x.items()):
            if not isinstance(k, str):
                unsupported("json of a symbolic key")
            out += list(item.encode()) * (i > 0) + _json_dump(
                k, item, colon) + list(colon.encode()) + _json_dump(
                v, item, colon)
        return out + [0x7d]
    if t in (V.SymInt, V.SymBool, V.SymRat, V.SymFmt):
        unsupported("json of a symbolic number")
    raise TypeError("Object of type %s is not JSON serializable"
                    % getattr(x.__class__, "__name__", "?"))


def json_dumps(x, **kw):
    if not _deep_sym(x):
        return real_json.dumps(x, **kw)
    item, colon = kw.pop("separators", None) or (", ", ": ")
    kw.pop("ensure_ascii", None)
    kw.pop("allow_nan", None)
    if any(v for v in kw.values()):
        unsupported("json.dumps(%s)" % ", ".join(sorted(kw)))
    return V.mkstr(_json_dump(x, item, colon))


class _Json(object):
    def __init__(self, elems):
        self.b, self.i = elems, 0

    def bad(self, what):
        raise real_json.JSONDecodeError(what, "", self.i)

    def at(self, *codes):
        """Is the next one of these characters?"""
        if self.i >= len(self.b):
            return False
        x = self.b[self.i]
        if type(x) is int:
            return x in codes
        c = V.elem_int(x)
        return bool(V.lor(*[c == k for k in codes]))

    def space(self):
        while self.at(0x20, 0x09, 0x0a, 0x0d):
            self.i += 1

    def value(self):
        self.space()
        if self.at(0x22):
            return self.text()
        if self.at(0x5b):
            self.i += 1
            out = []
            self.space()
            if self.at(0x5d):
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.space()
                if self.at(0x5d):
                    self.i += 1
                    return out
                if not self.at(0x2c):
                    self.bad("Expecting ',' delimiter")
                self.i += 1
        if self.i >= len(self.b):
            self.bad("Expecting value")
        unsupported("symbolic json that is not a list of texts")

    def text(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.b):
                self.bad("Unterminated string")
            if self.at(0x22):
                self.i += 1
                return V.mkstr(out)
            if self.at(0x5c):
                self.i += 1
                if not self.at(0x22, 0x5c, 0x2f):
                    unsupported("json escapes")
            elif V.elem_int(self.b[self.i]) < 0x20:
                self.bad("Invalid control character")
            out.append(self.b[self.i])
            self.i += 1


def json_loads(s, **kw):
    if not V.is_sym(s):
        return real_json.loads(s, **kw)
    if kw:
        unsupported("json.loads(%s)" % ", ".join(sorted(kw)))
    if type(s) in V.SYMBYTES:
        s = V.mkbytes(list(s.b)).decode("utf-8")
    if type(s) is not V.SymStr:
        return real_json.loads(s)
    p = _Json(list(s.b))
    r = p.value()
    p.space()
    if p.i < len(p.b):
        p.bad("Extra data")
    return r


json = Proxy(real_json, dumps=json_dumps, loads=json_loads)


def module_for(name):
    """The model standing in for an absolute import, or None."""
    if not _MODULES:
        _MODULES.update({
            "struct": structmodel.module(), "zlib": zlib,
            "binascii": binascii, "gzip": gzip, "io": io, "six": _six(),
            "random": random, "time": time, "datetime": datetime,
            "calendar": calendar, "json": json,
        })
        if snappy is not None:
            _MODULES["snappy"] = snappy
    return _MODULES.get(name)

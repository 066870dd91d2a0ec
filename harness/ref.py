"""Independent encoding/decoding of the Kafka 0.8/0.9 wire format.

Written from the protocol guide, not from kiel.  Works on plain bytes and on
symbolic bytes alike (it only packs, slices and compares)."""
import struct
import zlib


class Bad(Exception):
    """The bytes do not follow the protocol."""


# -- encoding -------------------------------------------------------------

def i8(v):
    return struct.pack(">b", v)


def i16(v):
    return struct.pack(">h", v)


def i32(v):
    return struct.pack(">i", v)


def i64(v):
    return struct.pack(">q", v)


def utf8(s):
    return s if isinstance(s, bytes) else s.encode("utf-8")


def string(s):
    if s is None:
        return i16(-1)
    b = utf8(s)
    return i16(len(b)) + b


def nbytes(b):
    if b is None:
        return i32(-1)
    b = utf8(b)
    return i32(len(b)) + b


def array(items, enc):
    out = i32(len(items))
    for x in items:
        out = out + enc(x)
    return out


def message_body(key, value, attributes=0, magic=0):
    return i8(magic) + i8(attributes) + nbytes(key) + nbytes(value)


def message(key, value, attributes=0, magic=0, crc=None):
    body = message_body(key, value, attributes, magic)
    c = struct.pack(">I", zlib.crc32(body) & 0xffffffff) \
        if crc is None else crc
    return c + body


def entry(offset, msg):
    return i64(offset) + i32(len(msg)) + msg


def message_set(entries):
    """entries: [(offset, key, value)] -> raw set without its size prefix."""
    out = b""
    for off, key, value in entries:
        out = out + entry(off, message(key, value))
    return out


def sized(raw):
    return i32(len(raw)) + raw


# -- compressed forms whose length does not depend on the content ----------

def gzip_stored(data):
    n = len(data)
    return b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x01" + \
        struct.pack("<HH", n, 0xffff ^ n) + data + \
        struct.pack("<II", zlib.crc32(data) & 0xffffffff, n)


def snappy_literal(data):
    n = len(data)
    if n == 0:
        return b"\x00"
    head = b""
    k = n
    while k > 0x7f:
        head += bytes([k & 0x7f | 0x80])
        k >>= 7
    head += bytes([k])
    head += bytes([n - 1 << 2]) if n <= 60 else bytes([60 << 2, n - 1]) \
        if n <= 256 else bytes([61 << 2, n - 1 & 255, n - 1 >> 8])
    return head + data


def snappy_framed(blocks):
    return b"\x82SNAPPY\x00" + i32(1) + i32(1) + b"".join(
        sized(snappy_literal(b)) for b in blocks)


# -- decoding -------------------------------------------------------------

class Reader(object):
    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos

    def left(self):
        return len(self.data) - self.pos

    def take(self, n):
        if n > self.left():
            raise Bad("ran out of bytes")
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        return r

    def i8(self):
        return struct.unpack(">b", self.take(1))[0]

    def i16(self):
        return struct.unpack(">h", self.take(2))[0]

    def i32(self):
        return struct.unpack(">i", self.take(4))[0]

    def u32(self):
        return struct.unpack(">I", self.take(4))[0]

    def i64(self):
        return struct.unpack(">q", self.take(8))[0]

    def string(self):
        n = self.i16()
        return None if n == -1 else self.text(n)

    def text(self, n):
        return self.take(n).decode("utf-8")

    def nbytes(self):
        n = self.i32()
        return None if n == -1 else self.take(n)

    def array(self, dec):
        n = self.i32()
        return [dec() for _ in range(n)]

    def done(self):
        if self.left():
            raise Bad("%d trailing bytes" % self.left())


def read_message_set(raw):
    """-> [(offset, crc_ok, magic, attributes, key, value)], strict."""
    r = Reader(raw)
    out = []
    while r.left():
        off = r.i64()
        size = r.i32()
        body = Reader(r.take(size))
        crc = body.u32()
        rest = body.data[4:]
        magic, attributes = body.i8(), body.i8()
        key, value = body.nbytes(), body.nbytes()
        body.done()
        out.append((off, crc == (zlib.crc32(rest) & 0xffffffff), magic,
                    attributes, key, value))
    return out


class Request(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "Request(%r)" % self.__dict__


def read_header(r):
    return r.i16(), r.i16(), r.i32(), r.string()


def read_request(payload):
    """Decodes the requests a v0 broker understands."""
    r = Reader(payload)
    key, version, corr, client = read_header(r)
    q = Request(api=key, version=version, corr=corr, client=client)
    if version != 0:
        raise Bad("api version %r" % version)
    BODY[key](r, q)
    r.done()
    return q


def _produce(r, q):
    q.acks, q.timeout = r.i16(), r.i32()

    def part():
        pid = r.i32()
        return pid, read_message_set(r.take(r.i32()))
    q.topics = r.array(lambda: (r.string(), r.array(part)))


def _fetch(r, q):
    q.replica, q.max_wait, q.min_bytes = r.i32(), r.i32(), r.i32()
    q.topics = r.array(lambda: (r.string(), r.array(
        lambda: (r.i32(), r.i64(), r.i32()))))


def _offset(r, q):
    q.replica = r.i32()
    q.topics = r.array(lambda: (r.string(), r.array(
        lambda: (r.i32(), r.i64(), r.i32()))))


def _metadata(r, q):
    q.topics = r.array(r.string)


def _offset_commit(r, q):
    q.group = r.string()
    q.topics = r.array(lambda: (r.string(), r.array(
        lambda: (r.i32(), r.i64(), r.string()))))


def _offset_fetch(r, q):
    q.group = r.string()
    q.topics = r.array(lambda: (r.string(), r.array(r.i32)))


def _group_coordinator(r, q):
    q.group = r.string()


BODY = {0: _produce, 1: _fetch, 2: _offset, 3: _metadata, 8: _offset_commit,
        9: _offset_fetch, 10: _group_coordinator}
PRODUCE, FETCH, OFFSET, METADATA = 0, 1, 2, 3
OFFSET_COMMIT, OFFSET_FETCH, GROUP_COORDINATOR = 8, 9, 10


# -- responses ------------------------------------------------------------

def metadata_response(brokers, topics):
    """brokers [(id, host, port)], topics [(err, name, [(err, pid, leader,
    replicas, isrs)])]"""
    return array(brokers, lambda b: i32(b[0]) + string(b[1]) + i32(b[2])) + \
        array(topics, lambda t: i16(t[0]) + string(t[1]) + array(
            t[2], lambda p: i16(p[0]) + i32(p[1]) + i32(p[2]) +
            array(p[3], i32) + array(p[4], i32)))


def produce_response(topics):
    """[(name, [(pid, err, offset)])]"""
    return array(topics, lambda t: string(t[0]) + array(
        t[1], lambda p: i32(p[0]) + i16(p[1]) + i64(p[2])))


def fetch_response(topics):
    """[(name, [(pid, err, highwater, raw message set)])]"""
    return array(topics, lambda t: string(t[0]) + array(
        t[1], lambda p: i32(p[0]) + i16(p[1]) + i64(p[2]) + sized(p[3])))


def offset_response(topics):
    """[(name, [(pid, err, [offsets])])]"""
    return array(topics, lambda t: string(t[0]) + array(
        t[1], lambda p: i32(p[0]) + i16(p[1]) + array(p[2], i64)))


def offset_commit_response(topics):
    return array(topics, lambda t: string(t[0]) + array(
        t[1], lambda p: i32(p[0]) + i16(p[1])))


def offset_fetch_response(topics):
    return array(topics, lambda t: string(t[0]) + array(
        t[1], lambda p: i32(p[0]) + i64(p[1]) + string(p[2]) + i16(p[3])))


def coordinator_response(err, cid, host, port):
    return i16(err) + i32(cid) + string(host) + i32(port)

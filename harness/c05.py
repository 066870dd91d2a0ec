"""C05: compressed message sets hold exactly the messages put in."""
import gzip
import struct

import snappy

from harness import ref, wiregen

REACH = ["gzip", "snappy", "several-blocks", "short-last-block",
         "copy-element", "upper-attribute-bits"]
ASSUMPTIONS = [
    "the gzip/zlib and snappy libraries are trusted: modelled as the stored/"
    "literal forms of their formats, read back exactly",
    "payloads above 40 bytes have a few arbitrary bytes, the rest fixed"]

HEADER = b"\x82SNAPPY\x00" + ref.i32(1) + ref.i32(1)


def payload(ctx, name, n, few=False):
    if n is None or n <= 40:
        return None if n is None else ctx.bytes(name, n)
    if few:
        return ctx.bytes(name + "a", 1) + b"\x80" * (n - 1)
    fill = bytes((i * 7 + i // 251) % 251 for i in range(n))
    out = bytearray(0)
    a, z = ctx.bytes(name + "a", 2), ctx.bytes(name + "z", 2)
    return a + fill[2:n - 2] + z


def unblock(ctx, data):
    """Reference reader of the framed snappy format -> plain blocks."""
    ctx.check(data[:16] == HEADER, "snappy framing header")
    r = ref.Reader(data, 16)
    out = []
    while r.left():
        if r.left() < 4:
            ctx.fail("trailing bytes after the last block")
        n = r.i32()
        if n > r.left():
            ctx.fail("block longer than the data")
        out.append(snappy.uncompress(r.take(n)))
    return out


def codec(ctx, kind, n):
    """compress() against a reference reader, and back through decompress()."""
    mod = ctx.kiel("compression." + kind)
    data = payload(ctx, "d", n)
    out = mod.compress(data)
    ctx.reach(kind)
    if kind == "gzip":
        plain = gzip.decompress(out)
    else:
        blocks = unblock(ctx, out)
        if len(blocks) > 1:
            ctx.reach("several-blocks")
        plain = b"".join(blocks)
    ctx.eq(plain, data, "a conforming reader gets something else")
    ctx.eq(mod.decompress(out), data, "decompress(compress(x)) != x")


def blocks(ctx, sizes, copy=None):
    """Any division into blocks a peer may choose."""
    mod = ctx.kiel("compression.snappy")
    parts = [payload(ctx, "b%d" % i, n) for i, n in enumerate(sizes)]
    if sizes and sizes[-1] < 12:
        ctx.reach("short-last-block")
    raw = ref.snappy_framed(parts)
    plain = b"".join(parts)
    if copy is not None:
        # literal of 4, then a copy of 'copy' bytes from 4 back
        lit = ctx.bytes("lit", 4)
        n = 4 + copy
        block = bytes([n]) + bytes([(4 - 1) << 2]) + lit + \
            bytes([((copy - 4) << 2) | 1, 4])
        raw = raw + ref.sized(block)
        plain = plain + (lit + lit + lit + lit)[:n]
        ctx.reach("copy-element")
    ctx.eq(mod.decompress(raw), plain, "blocks written by a peer")


def message_set(ctx, kind, sizes):
    """MessageSet.compressed through a request, read by a reference reader."""
    m = ctx.kiel("protocol.messages")
    pr = ctx.kiel("protocol.produce")
    const = ctx.kiel("constants")
    code = {"gzip": 1, "snappy": 2}[kind]
    given = [(payload(ctx, "k%d" % i, k, True),
              payload(ctx, "v%d" % i, v, True))
             if len(sizes) < 6 or i == len(sizes) // 2 else
             (None, b"%d" % i)
             for i, (k, v) in enumerate(sizes)]
    mset = m.MessageSet.compressed(
        {"gzip": const.GZIP, "snappy": const.SNAPPY}[kind],
        [m.Message(magic=0, attributes=0, key=k, value=v)
         for k, v in given])
    ctx.reach(kind)
    raw = pr.ProduceRequest(
        required_acks=1, timeout=2, topics=[pr.TopicRequest(
            name="t", partitions=[pr.PartitionRequest(
                partition_id=0, message_set=mset)])]).serialize()
    try:
        entries = ref.read_request(raw).topics[0][1][0][1]
    except ref.Bad as e:
        ctx.fail("a broker cannot read the request: %s" % e)
    ctx.eq(len(entries), 1, "one envelope")
    off, crc_ok, magic, attr, key, value = entries[0]
    ctx.check(crc_ok, "envelope checksum")
    ctx.eq((magic, attr), (0, code), "envelope header")
    ctx.check(key is None, "envelope key")
    plain = gzip.decompress(value) if kind == "gzip" else \
        b"".join(unblock(ctx, value))
    try:
        inner = ref.read_message_set(plain)
    except ref.Bad as e:
        ctx.fail("the compressed set is malformed: %s" % e)
    ctx.eq(len(inner), len(given), "messages in the compressed set")
    for (_, ok, mg, at, k, v), (gk, gv) in zip(inner, given):
        ctx.check(ok, "inner checksum")
        ctx.eq((mg, at), (0, 0), "inner header")
        wiregen.octets(ctx, k, gk, "inner key")
        wiregen.octets(ctx, v, gv, "inner value")


def envelope(ctx, layout):
    """Sets a broker may return: envelopes (any codec, any upper attribute
    bits) among plain messages; read back in order with their offsets."""
    m = ctx.kiel("protocol.messages")
    raw = b""
    want = []
    for i, (kind, n) in enumerate(layout):
        msgs = [(ctx.i64("o%d.%d" % (i, j)), None, ctx.bytes(
            "v%d.%d" % (i, j), 1 + j)) for j in range(n)]
        want += msgs
        upper = ctx.int("upper%d" % i, 0, 31) * 4
        if kind == "plain":
            for o, k, v in msgs:
                raw = raw + ref.entry(o, ref.message(k, v, upper))
        else:
            inner = ref.message_set(msgs)
            if kind == "gzip":
                value, attr = ref.gzip_stored(inner), 1
            elif kind == "snappy":
                value, attr = ref.snappy_framed([inner]), 2
            else:                # snappy, one block per few bytes
                value, attr = ref.snappy_framed([inner[:9], inner[9:11], inner[11:]]), 2
            ctx.reach("upper-attribute-bits")
            raw = raw + ref.entry(ctx.i64("env%d" % i),
                                  ref.message(None, value, attr + upper))
    got, end = m.MessageSet.parse(ref.sized(raw) + b"tail", 0)
    ctx.eq(end, 4 + len(raw), "end of the set")
    ctx.eq(len(got.messages), len(want), "number of messages")
    for (o, g), (wo, wk, wv) in zip(got.messages, want):
        ctx.eq(o, wo, "offset of a message from a compressed set")
        wiregen.octets(ctx, g.key, wk, "key")
        wiregen.octets(ctx, g.value, wv, "value")
    ctx.note([wo for wo, _, _ in want])


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn, bound, **params):
        out.append({"name": name, "fn": fn, "params": params,
                    "limits": {"samples": 2}, "bound": bound})

    B = 32768
    sizes = [0, 1, 2, 15, 16, 17, 40, 300, B - 1, B, B + 1, B + 16, B + 20,
             2 * B - 1, 2 * B, 2 * B + 5, 4 * B + 1]
    if deep:
        sizes += list(range(3, 15)) + list(range(18, 40)) + [
            B + i for i in range(2, 24)] + [3 * B, 3 * B + 1, 5 * B + 7]
    for n in sizes:
        add("snappy-%d" % n, "codec", "%d bytes" % n, kind="snappy", n=n)
        if n < 1000 or n > B or deep:
            add("gzip-%d" % n, "codec", "%d bytes" % n, kind="gzip", n=n)
    splits = [[], [1], [0], [5, 1], [1, 1], [20, 1], [30, 11], [0, 3, 0],
              [7, 0, 2], [100, 14], [100, 16], [40, 40, 3]]
    if deep:
        splits += [[a, b] for a in range(0, 20) for b in range(0, 14)]
        splits += [[a, b, c] for a in range(3) for b in range(3)
                   for c in range(3)]
    for i, s in enumerate(splits):
        add("blocks-%s" % "-".join(map(str, s)), "blocks",
            "blocks of %s bytes" % s, sizes=s)
    for c in (4, 7, 11):
        add("copy-%d" % c, "blocks", "copy element of %d bytes" % c,
            sizes=[3], copy=c)
    for kind in ("gzip", "snappy"):
        for i, s in enumerate([[(None, 1)], [(1, 2), (0, None)],
                               [(None, 3), (2, 0), (None, None)], [],
                               [(None, 40000), (2, 70000)],
                               [(None, 2)] * 20] + (
                              [[(1, 300), (2, 2)], [(5, 5)] * 4]
                              if deep else [])):
            add("set-%s-%d" % (kind, i), "message_set",
                "%d messages" % len(s), kind=kind, sizes=s)
    lay = [[("gzip", 2)], [("snappy", 2)], [("split", 2)],
           [("plain", 1), ("gzip", 1), ("plain", 1)],
           [("snappy", 1), ("gzip", 1)], [("gzip", 0), ("plain", 1)]]
    if deep:
        lay += [[("split", 1), ("snappy", 2), ("plain", 1)],
                [("gzip", 3)], [("plain", 2), ("split", 2)]]
    for i, l in enumerate(lay):
        add("read-%d" % i, "envelope", "layout %s, all offsets and upper "
            "attribute bits" % l, layout=l)
    return out

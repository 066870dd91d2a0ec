"""C01: primitive values have exactly the protocol's binary form."""
import struct

from harness import ref

REACH = ["int-ok", "int-range", "str-none", "str-some", "arr", "trunc",
         "bytes-nonutf8", "arr-bad", "long", "many"]
ASSUMPTIONS = []

WIDTH = {"Int8": 1, "Int16": 2, "Int32": 4, "Int64": 8}


def encode(value):
    fmt, data = value.render()
    return struct.pack("!" + fmt, *data)


def ints(ctx, cls):
    """Every integer (two bits wider than the type) in, bytes out, back."""
    P = getattr(ctx.kiel("protocol.primitives"), cls)
    n = WIDTH[cls]
    lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
    v = ctx.int("v", 4 * lo, 4 * hi)
    try:
        raw = encode(P(v))
    except struct.error:
        ctx.reach("int-range")
        ctx.check(ctx.lor(v < lo, v > hi), "in-range value rejected")
        return
    ctx.reach("int-ok")
    ctx.check(ctx.land(v >= lo, v <= hi), "out-of-range value encoded")
    ctx.check(len(raw) == n, "wrong width")
    expect = 0
    for b in raw:
        expect = expect * 256 + b
    ctx.eq(expect, ctx.ite(v < 0, v + (1 << (8 * n)), v),
           "not big-endian two's complement")
    pre = ctx.bytes("pre", ctx.pick("off", 3))
    back, off = P.parse(pre + raw + b"zz", len(pre))
    ctx.eq(back, v, "decoded value differs")
    ctx.eq(off, len(pre) + n, "wrong end offset")
    ctx.note(raw)


def strings(ctx, cls, n):
    mod = ctx.kiel("protocol.primitives")
    P = getattr(mod, cls)
    w = 2 if cls == "String" else 4
    pack = ref.i16 if w == 2 else ref.i32
    if n is None:
        ctx.reach("str-none")
        raw = encode(P(None))
        ctx.eq(raw, pack(-1), "null is not length -1")
        back, off = P.parse(b"q" + raw, 1)
        ctx.check(back is None, "null decoded as something else")
        ctx.eq(off, 1 + w, "wrong end offset")
        return
    ctx.reach("str-some")
    if ctx.flag("text"):
        v = ctx.text("v", n)
        b = v.encode("utf-8")
    else:
        v = b = ctx.bytes("v", n)
    raw = encode(P(v))
    ctx.eq(raw, pack(n) + b, "not length-prefixed bytes")
    tail = ctx.bytes("tail", 2)
    back, off = P.parse(b"abc" + raw + tail, 3)
    ctx.eq(off, 3 + w + n, "wrong end offset")
    if isinstance(back, bytes):
        ctx.reach("bytes-nonutf8")
        ctx.eq(back, b, "bytes changed")
    else:
        ctx.eq(back.encode("utf-8"), b, "text changed")
    ctx.note(raw)


def long(ctx, cls, n):
    """n bytes: arbitrary at both ends, fixed in between."""
    P = getattr(ctx.kiel("protocol.primitives"), cls)
    w = 2 if cls == "String" else 4
    pack = ref.i16 if w == 2 else ref.i32
    ctx.reach("long")
    if ctx.flag("text"):
        # characters of one to three bytes
        v = ctx.text("a", 2) + u"\u20ac" * 20 + u"e\u00e9" * (
            (n - 66) // 3) + "x" * ((n - 66) % 3) + ctx.text("z", 4)
        b = v.encode("utf-8")
    else:
        v = b = ctx.bytes("a", 2) + b"\xff\x00" * ((n - 4) // 2) + \
            b"\x80" * (n % 2) + ctx.bytes("z", 2)
    ctx.check(len(b) == n, "%d bytes" % len(b))
    try:
        raw = encode(P(v))
    except struct.error:
        ctx.check(cls == "String" and n > 32767, "%d bytes rejected" % n)
        return
    ctx.check(cls == "Bytes" or n <= 32767, "%d bytes accepted" % n)
    ctx.eq(raw, pack(n) + b, "not length-prefixed bytes")
    for cut in (0, 1, n - 1):
        try:
            P.parse(raw[:w + cut], 0)
        except struct.error:
            continue
        ctx.fail("cut off data accepted")
    back, off = P.parse(b"abc" + raw + b"xy", 3)
    ctx.eq(off, 3 + w + n, "wrong end offset")
    ctx.eq(back if isinstance(back, bytes) else back.encode("utf-8"), b,
           "content changed")


def truncated(ctx, cls, n):
    """Cutting an encoded string anywhere is always detected."""
    P = getattr(ctx.kiel("protocol.primitives"), cls)
    v = ctx.bytes("v", n)
    raw = encode(P(v))
    cut = ctx.pick("cut", len(raw))
    try:
        P.parse(raw[:cut], 0)
    except struct.error:
        ctx.reach("trunc")
        return
    ctx.fail("truncated data accepted")


def arbitrary(ctx, cls, n):
    """Any n-byte buffer: either a full value within it, or an error."""
    P = getattr(ctx.kiel("protocol.primitives"), cls)
    w = 2 if cls == "String" else 4
    buf = ctx.bytes("buf", n)
    size = struct.unpack_from(">h" if w == 2 else ">i", buf, 0)[0]
    fits = ctx.land(size >= -1, size <= n - w)
    try:
        v, off = P.parse(buf, 0)
    except struct.error:
        ctx.check(ctx.lnot(fits), "well-formed value rejected")
        return
    ctx.check(fits, "malformed length accepted")
    if v is None:
        ctx.eq(size, -1, "null for a length that is not -1")
        ctx.eq(off, w, "wrong end offset")
        return
    ctx.eq(off, size + w, "wrong end offset")
    if not isinstance(v, bytes):
        v = v.encode("utf-8")
    ctx.eq(v, buf[w:w + len(v)], "wrong content")
    ctx.eq(len(v), size, "wrong length")


def arrays(ctx, n, item):
    mod = ctx.kiel("protocol.primitives")
    P = mod.Array.of(getattr(mod, item))
    ctx.reach("many" if n > 100 else "arr")
    if item == "Int32":
        vals = [ctx.i32("v") for _ in range(min(n, 5))]
        vals += list(range(n - len(vals)))
        enc = ref.i32
    elif item == "Int64":
        vals = [ctx.i64("v") for _ in range(min(n, 5))]
        vals += [-i for i in range(n - len(vals))]
        enc = ref.i64
    else:
        vals = [ctx.text("v", k) if k < 5 else "x%d" % k
                for k in range(n)]
        enc = ref.string
    raw = encode(P(vals))
    ctx.eq(raw, ref.array(vals, enc), "not count-prefixed items")
    back, off = P.parse(b"x" + raw + b"yy", 1)
    ctx.eq(list(back), vals, "items differ")
    ctx.eq(off, 1 + len(raw), "wrong end offset")
    if n == 0:
        ctx.eq(encode(P(None)), ref.i32(0), "missing array is not empty")
    ctx.note(raw)


def anycount(ctx, n):
    """Any n-byte buffer read as an array of 8-bit integers."""
    mod = ctx.kiel("protocol.primitives")
    P = mod.Array.of(mod.Int8)
    buf = ctx.bytes("buf", n)
    count = struct.unpack_from(">i", buf, 0)[0]
    fits = ctx.land(count >= -1, count <= n - 4)
    try:
        v, off = P.parse(buf, 0)
    except struct.error:
        ctx.reach("arr-bad")
        ctx.check(ctx.lnot(fits), "well-formed array rejected")
        return
    ctx.check(fits, "malformed element count accepted")
    ctx.eq(len(v), ctx.ite(count < 0, 0, count), "wrong number of items")
    ctx.eq(off, 4 + len(v), "wrong end offset")
    for x, b in zip(v, buf[4:]):
        ctx.eq(x, ctx.ite(b > 127, b - 256, b), "wrong item")


def instances(tier):
    deep = tier == "thorough"
    out = []
    for c in WIDTH:
        out.append({"name": "ints-" + c, "fn": "ints", "params": {"cls": c},
                    "bound": "every integer of up to two bits more than the "
                             "type; prefixes of 0..2 arbitrary bytes"})
    for c in ("String", "Bytes"):
        for n in [None] + list(range(0, 9 if deep else 5)):
            out.append({"name": "str-%s-%s" % (c, n), "fn": "strings",
                        "params": {"cls": c, "n": n},
                        "bound": "all texts and byte strings of %s bytes"
                                 % n})
        out.append({"name": "trunc-" + c, "fn": "truncated",
                    "params": {"cls": c, "n": 3},
                    "bound": "3 arbitrary bytes, every cut point"})
        for n in range(4, 13 if deep else 9, 2):
            out.append({"name": "any-%s-%d" % (c, n), "fn": "arbitrary",
                        "params": {"cls": c, "n": n},
                        "bound": "every buffer of %d bytes" % n})
    for n in range(4, 9 if deep else 7):
        out.append({"name": "anycount-%d" % n, "fn": "anycount",
                    "params": {"n": n}, "bound": "every buffer of %d bytes"
                    % n})
        sizes = [127, 128, 255, 256, 4096, 32766, 32767, 32768, 65535, 65536,
                 70001]
        for n in sizes + ([200000, 1 << 20] if deep else []):
            out.append({"name": "long-%s-%d" % (c, n), "fn": "long",
                        "params": {"cls": c, "n": n},
                        "bound": "%d bytes, 4 to 6 of them arbitrary" % n})
    for item in ("Int32", "Int64", "String"):
        for n in list(range(0, 5 if deep else 4)) + [101, 260] + (
                [5000] if deep else []):
            out.append({"name": "arr-%s-%d" % (item, n), "fn": "arrays",
                        "params": {"item": item, "n": n},
                        "bound": "%d items, %d of them arbitrary" % (
                            n, min(n, 5))})
    return out

"""C04: message sets carry exact sizes and valid checksums."""
from harness import ref, wiregen

REACH = ["null-key", "null-value", "empty-value", "crc-negative",
         "crc-positive", "read-back", "several-partitions"]
ASSUMPTIONS = [
    "zlib.crc32 is modelled exactly (as the linear map it is)",
    "messages are rendered with magic 0, as the producer does"]


def payload(ctx, name, n):
    """n bytes, a few of them arbitrary when there are many."""
    if n is None or n <= 8:
        return None if n is None else ctx.bytes(name, n)
    if n > 1000:
        return b"\xe9" * (n - 1) + ctx.bytes(name + "z", 1)
    return ctx.bytes(name + "a", 2) + b"\x55" * (n - 4) + \
        ctx.bytes(name + "z", 2)


def produce(ctx, sizes, parts=1, offsets="new"):
    """sizes: per message (key length, value length), dealt over parts."""
    m = ctx.kiel("protocol.messages")
    pr = ctx.kiel("protocol.produce")
    given = [[] for _ in range(parts)]
    for i, (kn, vn) in enumerate(sizes):
        if len(sizes) < 6 or i == len(sizes) // 2:
            k = payload(ctx, "k%d" % i, kn)
            v = payload(ctx, "v%d" % i, vn)
        else:       # enough variety by now
            k, v = ((b"\xfe%d" % i * n)[:n] for n in (kn, vn))
        if k is None:
            ctx.reach("null-key")
        if v is None:
            ctx.reach("null-value")
        elif len(v) == 0:
            ctx.reach("empty-value")
        given[i % parts].append((k, v))
    offs = {}
    reqs = []
    for p, msgs in enumerate(given):
        objs = [m.Message(magic=0, attributes=0, key=k, value=v)
                for k, v in msgs]
        if offsets == "new":
            mset = m.MessageSet.compressed(None, objs)
            offs[p] = [-1] * len(msgs)
        else:
            offs[p] = [ctx.i64("o%d.%d" % (p, i)) for i in range(len(msgs))]
            mset = m.MessageSet(list(zip(offs[p], objs)))
        reqs.append(pr.PartitionRequest(partition_id=p, message_set=mset))
    raw = pr.ProduceRequest(
        required_acks=1, timeout=2,
        topics=[pr.TopicRequest(name="t", partitions=reqs)]).serialize()
    if parts > 1:
        ctx.reach("several-partitions")
    try:
        q = ref.read_request(raw)
    except ref.Bad as e:
        ctx.fail("a broker cannot read the request: %s" % e)
    ctx.eq([t[0] for t in q.topics], ["t"], "topics")
    ctx.eq([p[0] for p in q.topics[0][1]], list(range(parts)), "partitions")
    for p, entries in q.topics[0][1]:
        ctx.eq(len(entries), len(given[p]), "number of messages")
        for (off, crc_ok, magic, attr, k, v), (gk, gv), go in zip(
                entries, given[p], offs[p]):
            ctx.check(crc_ok, "checksum does not match the message")
            ctx.eq((off, magic, attr), (go, 0, 0), "message header")
            ctx.check((k is None) == (gk is None), "null key")
            ctx.check((v is None) == (gv is None), "null value")
            if gk is not None:
                ctx.eq(k, gk, "key")
            if gv is not None:
                ctx.eq(v, gv, "value")
        # and the way back, with other bytes around
        body = ref.sized(b"".join(
            ref.entry(o, ref.message(k, v))
            for o, (k, v) in zip(offs[p], given[p])))
        pad = ctx.bytes("pad%d" % p, 3)
        got, end = m.MessageSet.parse(pad + body + pad, 3)
        ctx.eq(end, 3 + len(body), "end of the parsed set")
        ctx.eq([o for o, _ in got.messages], offs[p], "offsets read back")
        for (_, g), (k, v) in zip(got.messages, given[p]):
            wiregen.octets(ctx, g.key, k, "key read back")
            wiregen.octets(ctx, g.value, v, "value read back")
        ctx.reach("read-back")
    ctx.note(len(raw))


def checksum(ctx, n):
    """One message whose checksum takes any value at all."""
    import zlib
    m = ctx.kiel("protocol.messages")
    pr = ctx.kiel("protocol.produce")
    v = ctx.bytes("v", n)
    body = ref.message_body(None, v)
    want = zlib.crc32(body)
    ctx.reach("crc-negative" if want >= 2 ** 31 else "crc-positive")
    raw = pr.PartitionRequest(
        partition_id=7, message_set=m.MessageSet(
            [(0, m.Message(magic=0, attributes=0, key=None, value=v))]))
    fmt, data = raw.render()
    import struct
    ctx.eq(struct.pack("!" + fmt, *data),
           ref.i32(7) + ref.sized(ref.entry(0, ref.message(None, v))),
           "bytes of a message set")


def instances(tier):
    L = [None, 0, 1, 3]
    out = []

    def add(name, fn, bound, **params):
        out.append({"name": name, "fn": fn, "params": params,
                    "limits": {"samples": 2}, "bound": bound})

    for k in L:
        for v in L + [130]:
            add("one-%s-%s" % (k, v), "produce",
                "one message, key of %s and value of %s arbitrary bytes"
                % (k, v), sizes=[(k, v)])
    add("two", "produce", "two messages", sizes=[(1, 2), (None, 1)])
    add("three", "produce", "three messages",
        sizes=[(2, 0), (None, None), (0, 5)])
    add("none", "produce", "empty set", sizes=[])
    add("parts", "produce", "two partitions", parts=2,
        sizes=[(1, 1), (None, 2), (0, 3)])
    add("offsets", "produce", "arbitrary offsets", offsets="any",
        sizes=[(1, 1), (None, 2)])
    for k, v in ((30, 700), (127, 128), (None, 256), (5000, 1), (1, 33000),
                 (255, 65537), (70000, 70000)):
        add("long-%s-%d" % (k, v), "produce", "key of %s and value of %d "
            "bytes, 4 of each arbitrary" % (k, v), sizes=[(k, v)])
        add("before-%d" % v, "produce", "the same before another message",
            sizes=[(None, v), (None, 1)])
    for n in (17, 130):
        add("many-%d" % n, "produce", "%d messages" % n,
            sizes=[(i % 3, 1 + i % 2) for i in range(n)])
    for n in (1, 4, 5) + ((8, 16, 40) if tier == "thorough" else ()):
        add("crc-%d" % n, "checksum",
            "value of %d arbitrary bytes: every checksum value" % n, n=n)
    if tier == "thorough":
        add("five", "produce", "five messages over three partitions",
            parts=3, sizes=[(1, 1), (None, 2), (0, 3), (4, None), (5, 6)])
        for n in (5, 8, 13, 64, 255, 256, 257, 3000):
            add("size-%d" % n, "produce", "key and value of %d bytes" % n,
                sizes=[(n, n)])
        add("offsets3", "produce", "arbitrary offsets", offsets="any",
            sizes=[(1, 1), (None, 2), (2, 2), (0, 0)])
    return out

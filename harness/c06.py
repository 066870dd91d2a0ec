"""C06: a truncated message set yields its complete messages, no more."""
from harness import ref, wiregen

REACH = ["cut-inside", "cut-at-boundary", "cut-none", "cut-all",
         "compressed-cut", "following-read"]
ASSUMPTIONS = [
    "cuts happen between bytes of the set; the size prefix gives the number "
    "of bytes that follow, as brokers do"]


def entries(ctx, name, spec, fixed=False):
    """spec: list of message kinds -> [(raw entry, [(off, key, value)])]"""
    out = []
    for i, s in enumerate(spec):
        n = "%s%d" % (name, i)
        if isinstance(s, (list, tuple)):
            k = None if s[0] is None else ctx.bytes(n + "k", s[0])
            v = None if s[1] is None else b"\x80" * s[1] if fixed else \
                ctx.bytes(n + "v", s[1]) if s[1] <= 20 else \
                ctx.bytes(n + "v", 2) + b"\x41" * (s[1] - 2)
            o = ctx.i64(n + "o")
            out.append((ref.entry(o, ref.message(k, v)), [(o, k, v)]))
            continue
        msgs = [(ctx.i64("%so%d" % (n, j)), None, ctx.bytes(
            "%sv%d" % (n, j), 1 - j)) for j in range(2)]
        inner = ref.message_set(msgs)
        if s == "gzip":
            raw = ref.message(None, ref.gzip_stored(inner), 1)
        else:
            raw = ref.message(None, ref.snappy_framed([inner]), 2)
        out.append((ref.entry(ctx.i64(n + "o"), raw), msgs))
    return out


def fetch(ctx, first, second, cuts, nested=False):
    """cuts: (lo, hi, step) positions; 'where' picks one of them."""
    f = ctx.kiel("protocol.fetch")
    a = entries(ctx, "a", first)
    b = entries(ctx, "b", second, True)
    full = b"".join(r for r, _ in a)
    lo, hi = cuts
    hi = min(hi, len(full))
    cut = lo + ctx.pick("cut", hi - lo + 1)
    want, pos = [], 0
    for r, msgs in a:
        pos += len(r)
        if pos <= cut:
            want += msgs
    bounds, pos = {0}, 0
    for r, _ in a:
        pos += len(r)
        bounds.add(pos)
    ctx.note(sorted(bounds))
    ctx.reach("cut-all" if cut == 0 else "cut-none" if cut == len(full) else
              "cut-at-boundary" if cut in bounds else "cut-inside")
    if cut not in bounds and any(not isinstance(s, (list, tuple)) for s in first):
        ctx.reach("compressed-cut")
    tail = b"".join(r for r, _ in b)
    err, hw = ctx.i16("err"), ctx.i64("hw")
    raw = ref.fetch_response([
        ("t", [(0, err, hw, full[:cut]), (1, 0, hw, tail)]),
        ("u", [(5, err, hw, tail)])])
    got = f.FetchResponse.deserialize(raw)
    ctx.eq([t.name for t in got.topics], ["t", "u"], "topics")
    parts = [p for t in got.topics for p in t.partitions]
    ctx.eq([p.partition_id for p in parts], [0, 1, 5], "partitions")
    ctx.eq([p.error_code for p in parts], [err, 0, err], "error codes")
    ctx.eq([p.highwater_mark_offset for p in parts], [hw, hw, hw],
           "highwater marks")
    rest = [m for _, msgs in b for m in msgs]
    for p, w in zip(parts, (want, rest, rest)):
        ms = p.message_set.messages
        ctx.eq(len(ms), len(w), "number of messages of partition %s"
               % p.partition_id)
        for (o, m), (wo, wk, wv) in zip(ms, w):
            ctx.eq(o, wo, "offset")
            wiregen.octets(ctx, m.key, wk, "key")
            wiregen.octets(ctx, m.value, wv, "value")
    ctx.reach("following-read")
    ctx.note(len(want))


def instances(tier):
    out = []

    def add(name, first, second, bound, step=30):
        # split the cut positions over instances to use all cores
        total = 400
        for lo in range(0, total, step):
            n = sum(40 + (0 if not isinstance(s, (list, tuple)) else
                          (s[0] or 0) + (s[1] or 0)) if isinstance(s, (list, tuple))
                    else 160 for s in first)
            if lo > n:
                break
            out.append({
                "name": "%s-%d" % (name, lo), "fn": "fetch",
                "params": {"first": first, "second": second,
                           "cuts": (lo, lo + step - 1)},
                "limits": {"samples": 3},
                "bound": bound + ", cut at every byte from %d to %d"
                % (lo, lo + step - 1)})

    add("plain", [(None, 2), (1, 3)], [(None, 1)], "two plain messages")
    add("nulls", [(0, None), (None, 0)], [(1, 1)], "null and empty fields")
    add("gzip", [(None, 1), "gzip"], [(None, 1)],
        "a plain and a gzip entry", step=40)
    add("snappy", ["snappy", (None, 1)], [(None, 1)],
        "a snappy and a plain entry", step=40)
    add("long", [(None, 1), (1, 300)], [(None, 130)], "a long message",
        step=60)
    add("many", [(None, 0)] * 9, [(None, 0)] * 12, "nine messages", step=60)
    add("empty", [], [(None, 1)], "an empty set")
    if tier == "thorough":
        add("three", [(2, 2), (None, 9), (3, 1)], [(None, 1), (2, 2)],
            "three plain messages", step=15)
        add("mixed", ["gzip", (1, 2), "snappy"], ["snappy"],
            "gzip, plain, snappy", step=15)
        add("two-gzip", ["gzip", "gzip"], ["gzip"], "two gzip", step=15)
        add("two-snappy", ["snappy", "snappy"], ["gzip"], "two snappy",
            step=15)
    return out

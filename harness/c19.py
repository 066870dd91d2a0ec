"""C19: default allocation gives each partition to one member, evenly."""
from harness.group import default_allocator

REACH = ["uneven", "idle-member", "same-topic", "two-topics", "nobody",
         "no-partitions", "long-id", "seeds"]
ASSUMPTIONS = [
    "member names are distinct, and so are partitions",
    "a partition is written topic:id, the topic in the characters Kafka "
    "allows and the id in decimal"]


def legal(ctx, b):
    """Letters, digits, dot, underscore, dash."""
    return ctx.lor(ctx.land(b >= 0x30, b <= 0x39), ctx.land(
        b >= 0x41, b <= 0x5a), ctx.land(b >= 0x61, b <= 0x7a),
        b == 0x2d, b == 0x2e, b == 0x5f)


def topic(ctx, n):
    raw = ctx.bytes("topic", n)
    for i in range(n):
        ctx.assume(legal(ctx, raw[i]))
    return raw.decode("utf-8")


def number(ctx, digits):
    """-> (text, value) of a canonical decimal number."""
    raw = ctx.bytes("id", digits)
    value = 0
    for i in range(digits):
        ctx.assume(ctx.land(raw[i] >= 0x30, raw[i] <= 0x39))
        value = value * 10 + (raw[i] - 0x30)
    if digits > 1:
        ctx.assume(raw[0] != 0x30)
    return raw.decode("utf-8"), value


def distinct(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            ctx.assume(xs[i] != xs[j])


def allocate(ctx, members, partitions, name=1, size=1, digits=(1,),
             container="list"):
    names = [ctx.text("member", name) for _ in range(members)]
    distinct(ctx, names)
    parts, texts = [], []
    for i in range(partitions):
        t = topic(ctx, size)
        d, v = number(ctx, ctx.choice("digits", digits))
        if len(d) > 2:
            ctx.reach("long-id")
        parts.append((t, v))
        texts.append(t + ":" + d)
    for i in range(partitions):
        for j in range(i):
            ctx.assume(ctx.lor(parts[i][0] != parts[j][0],
                               parts[i][1] != parts[j][1]))
    fn = default_allocator(ctx)
    a = (list(names), list(texts))
    first = plain(fn(*a))
    ctx.check(len(a[0]) == members and len(a[1]) == partitions,
              "changed its arguments")
    for x, y in zip(a[0] + a[1], names + texts):
        ctx.eq(x, y, "argument")
    fn(["a", "b", "c"], ["x:1"])
    if container == "tuple":
        second = plain(fn(tuple(names), tuple(texts)))
    else:
        second = plain(default_allocator(ctx)(list(names), list(texts)))
    judge(ctx, names, parts, first)
    # the same result, in the same form
    ctx.check(len(first) == len(second), "differs the second time")
    for (m1, t1, p1), (m2, t2, p2) in zip(first, second):
        ctx.check(len(p1) == len(p2), "differs the second time")
        ctx.eq([m1, t1] + p1, [m2, t2] + p2, "the second time")
    if not members:
        ctx.reach("nobody")
    if not partitions:
        ctx.reach("no-partitions")
    if members and partitions % members:
        ctx.reach("uneven")
    if members > partitions:
        ctx.reach("idle-member")
    if partitions > 1:
        if parts[0][0] == parts[1][0]:
            ctx.reach("same-topic")
        else:
            ctx.reach("two-topics")


def plain(mapping):
    return [(m, t, list(ps)) for m, topics in list(mapping.items())
            for t, ps in list(topics.items())]


def judge(ctx, names, parts, result):
    counts = [0] * len(names)
    owners = [0] * len(parts)
    for m, t, ps in result:
        for p in ps:
            ctx.check(isinstance(p, int), "a partition id is not a number")
            k = 0
            for i, (t2, p2) in enumerate(parts):
                if ctx.land(t2 == t, p2 == p):      # forks
                    owners[i] += 1
                    k += 1
                    break
            ctx.check(k == 1, "allocated something unknown")
            for i, n in enumerate(names):
                if n == m:
                    counts[i] += 1
                    break
            else:
                ctx.fail("allocated to nobody known")
    if names:
        ctx.check(all(o == 1 for o in owners), "owners per partition: %r" %
                  owners)
        ctx.check(max(counts) - min(counts) <= 1, "partitions per member: %r"
                  % counts)


def counts(ctx, members, partitions, topics, order):
    """Larger groups: any number of both, in any of several orders."""
    m = ctx.int("members", 1, members)
    n = ctx.int("partitions", 0, partitions)
    m, n = ctx.conc(m), ctx.conc(n)
    names = ["host%d:%d" % (i % 3, 1000 + i) for i in range(m)]
    parts = [("t.%d" % (i % topics), i // topics) for i in range(n)]
    if order == "any":
        names, parts = ctx.perm("names", names), ctx.perm("parts", parts)
    elif order == "reversed":
        names, parts = names[::-1], parts[::-1]
    result = plain(default_allocator(ctx)(
        list(names), ["%s:%d" % p for p in parts]))
    judge(ctx, names, parts, result)
    again = plain(default_allocator(ctx)(
        list(names), ["%s:%d" % p for p in parts]))
    ctx.check(result == again, "differs the second time")


class Name(str):
    """A string with a hash of our choosing, as seeds give any."""
    hashes = {}

    def __hash__(self):
        return self.hashes[str(self)]


def seeds(ctx, members, partitions):
    """Two processes whose strings hash differently allocate alike."""
    names = ["m%d" % i for i in range(members)]
    texts = ["t:%d" % i for i in range(partitions)]
    results = []
    for turn in range(2):
        table = {}
        for group in (names, texts):
            order = ctx.perm("hash", range(len(group))) if turn \
                else list(range(len(group)))
            for i, x in zip(order, group):
                table[x] = i
        Name.hashes = table
        results.append(plain(default_allocator(ctx)(
            [Name(x) for x in names], [Name(x) for x in texts])))
        results[-1] = sorted((str(m), str(t), list(ps))
                             for m, t, ps in results[-1])
    ctx.check(results[0] == results[1], "depends on the hash seed: %r" %
              results)
    ctx.reach("seeds")


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(nm, fn, **p):
        if fn == "allocate":
            b = "%d members with any %d-character names, %d partitions of " \
                "topics with any %d-character names, ids of %s digits" % (
                    p["members"], p.get("name", 1), p["partitions"],
                    p.get("size", 1), list(p.get("digits", (1,))))
        elif fn == "seeds":
            b = "%d members and %d partitions, any two orders of hashes" % (
                p["members"], p["partitions"])
        else:
            b = "up to %d members and %d partitions of %d topics, %s order" \
                % (p["members"], p["partitions"], p["topics"], p["order"])
        out.append({"name": nm, "fn": fn, "params": p,
                    "limits": {"samples": 3}, "bound": b})

    add("2-3", "allocate", members=2, partitions=3)
    add("3-2", "allocate", members=3, partitions=2, container="tuple")
    add("1-2", "allocate", members=1, partitions=2, size=3, digits=(1, 2, 3))
    add("2-2", "allocate", members=2, partitions=2, name=2, size=2,
        digits=(1, 2))
    add("3-4", "allocate", members=3, partitions=4)
    add("0-2", "allocate", members=0, partitions=2)
    add("2-0", "allocate", members=2, partitions=0)
    add("many", "counts", members=6, partitions=14, topics=3,
        order="ascending")
    add("many-more", "counts", members=12, partitions=40, topics=4,
        order="ascending")
    add("any-order", "counts", members=3, partitions=3, topics=2,
        order="any")
    add("seeds", "seeds", members=3, partitions=4)
    if deep:
        add("seeds-4", "seeds", members=4, partitions=5)
        add("3-5", "allocate", members=3, partitions=5)
        add("4-4", "allocate", members=4, partitions=4, name=2)
        add("2-3-long", "allocate", members=2, partitions=3, size=3,
            digits=(1, 3))
        add("reversed", "counts", members=12, partitions=40, topics=4,
            order="reversed")
        add("any-order-4", "counts", members=4, partitions=4, topics=2,
            order="any")
    return out

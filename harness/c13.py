"""C13: each allocated partition is fetched once, at its own position."""
from harness import cons, ref, sim

REACH = ["two-leaders", "shared-leader", "moved", "subset", "remainder",
         "unknown-leader", "tiny-budget"]
ASSUMPTIONS = [
    "broker and partition ids are not negative",
    "limits are at least 0 and fit the protocol's Int32, offsets Int64",
    "metadata is consistent: leaders are reported brokers that accept "
    "connections"]


def distinct(ctx, name, n, lo):
    out = []
    for _ in range(n):
        v = ctx.int(name, lo, 2 ** 31 - 1)
        for w in out:
            ctx.assume(v != w)
        out.append(v)
    return out


def where(ctx, v, options, what):
    """Index of the option equal to v."""
    for i, o in enumerate(options):
        if v == o:
            return i
    ctx.fail(what)


def layout(ctx, nparts, nbrokers, alloc="all", moves=False, unknown=0,
           fixed=False):
    net = sim.Net(ctx)
    if nbrokers > 3:
        bids = [37 * k % 101 for k in range(nbrokers)]
    else:
        bids = distinct(ctx, "broker", nbrokers, 0)
    if fixed:
        pids = [2 * i + 1 for i in range(nparts)]
        leads = [i % nbrokers for i in range(nparts)]
    else:
        pids = distinct(ctx, "partition", nparts, 0)
        leads = [ctx.pick("leader", nbrokers) for _ in pids]
    hidden = list(range(nparts - unknown, nparts))   # not in metadata yet
    pos = [None] * nparts
    max_bytes = ctx.int("max_bytes", 0, 2 ** 31 - 1)
    max_wait = ctx.int("max_wait", 0, 2 ** 31 - 1)
    min_bytes = ctx.int("min_bytes", 0, 2 ** 31 - 1)
    seen = []
    code = {"fetch": 0}

    def metadata(broker, q):
        return ref.metadata_response(
            [(b, "h%d" % k, 9000 + k) for k, b in enumerate(bids)],
            [(0, "t", [(0, p, bids[leads[i]], [], [])
                       for i, p in enumerate(pids) if i not in hidden]),
             (0, "u", [(0, 0, bids[0], [], [])])])

    def offset(broker, q):
        res = []
        for t, parts in q.topics:
            for pid, time, most in parts:
                i = where(ctx, pid, pids, "offset of an unknown partition")
                pos[i] = ctx.int("start", 0, 2 ** 63 - 2)
                res.append((pid, 0, [pos[i]]))
        return ref.offset_response([("t", res)])

    def fetch(broker, q):
        seen.append((broker.k, q))
        return ref.fetch_response([
            (t, [(p, code["fetch"], 0, b"") for p, _, _ in parts])
            for t, parts in q.topics])

    for k in range(nbrokers):
        b = sim.Broker(net, "b%d" % k, "h%d" % k, 9000 + k, {
            ref.METADATA: metadata, ref.OFFSET: offset, ref.FETCH: fetch})
        b.k = k
    limits = dict(deserializer=ref.utf8, max_wait_time=max_wait,
                  min_bytes=min_bytes, max_bytes=max_bytes)
    if alloc == "all":
        mine = list(range(nparts))
        consumer = ctx.kiel("clients.single").SingleConsumer(
            ["h0:9000"], **limits)
    else:
        ctx.reach("subset")
        mine = [i for i in range(nparts)
                if i >= nparts - unknown or i == 0 or ctx.flag("mine")]
        gen = __import__("tornado.gen").gen

        class Consumer(ctx.kiel("clients.consumer").BaseConsumer):
            allocation = {"t": [pids[i] for i in mine], "u": [0]}

            @gen.coroutine
            def determine_offsets(self, topic, start=None):
                for i in mine:
                    pos[i] = ctx.int("start", 0, 2 ** 63 - 2)
                    self.offsets[topic][pids[i]] = pos[i]

            def wind_down(self):
                return gen.maybe_future(None)

        consumer = Consumer(["h0:9000"], **limits)
    net.run(consumer.connect())
    net.settle()

    def call(expected, also=None):
        del seen[:]
        before = len(net.requests)
        got = net.run(consumer.consume("t", -2))
        net.settle()
        ctx.check(got == [], "messages from nowhere")
        asked = {}
        for k, q in seen:
            ctx.eq(q.replica, -1, "replica id")
            ctx.eq(q.max_wait, max_wait, "wait time")
            ctx.eq(q.min_bytes, min_bytes, "minimum bytes")
            for t, parts in q.topics:
                ctx.check(t == "t", "fetched another topic")
                for pid, offset, size in parts:
                    i = where(ctx, pid, pids, "unknown partition")
                    ctx.check(i in (also or expected), "not an allocated partition")
                    ctx.check(leads[i] == k, "asked a broker that does not "
                              "lead the partition")
                    ctx.eq(offset, pos[i], "position")
                    asked.setdefault(k, []).append((i, size))
        every = sorted(i for rows in asked.values() for i, _ in rows)
        ctx.check(every in (sorted(expected), sorted(also or expected)),
                  "fetched %r instead of %r" % (every, sorted(expected)))
        for k, rows in asked.items():
            n = len(rows)
            sizes = [s for _, s in rows]
            total = sum(sizes)
            ctx.check(total <= max_bytes, "byte budget exceeded")
            ctx.check(total > max_bytes - n, "byte budget not used")
            for s in sizes:
                ctx.check(s >= 0, "negative size")
                for r in sizes:
                    ctx.check(s - r <= 1, "byte budget split unevenly")
            if n > 1:
                ctx.reach("shared-leader")
        if len(asked) > 1:
            ctx.reach("two-leaders")
        return [q for b, q in net.requests[before:]]

    known = [i for i in mine if i not in hidden]
    first = call(known)
    if hidden:
        # asked for the missing leader, and from then on it is fetched
        ctx.reach("unknown-leader")
        ctx.check(any(q.api == ref.METADATA for q in first),
                  "metadata was not refreshed for an unknown leader")
        del hidden[:]
        call(known, mine)
    again = call(mine)
    ctx.check(all(q.api == ref.FETCH for q in again),
              "more than fetches was asked")
    if moves:
        ctx.reach("moved")
        for i in range(nparts):
            leads[i] = (leads[i] + ctx.pick("move", 2)) % nbrokers
        code["fetch"] = 6
        net.run(consumer.consume("t", -2))
        net.settle()
        code["fetch"] = 0
        call(mine)
    if max_bytes < nparts:
        ctx.reach("tiny-budget")
    elif nparts > 1 and max_bytes % nparts != 0:
        ctx.reach("remainder")
    ctx.note(leads)


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, **p):
        out.append({"name": name, "fn": "layout", "params": p,
                    "limits": {"samples": 3},
                    "bound": "%d partitions with %s ids, led by any of %d "
                             "brokers with %s ids, any positions and "
                             "limits, allocation %s, leaders move: %s" % (
                                 p["nparts"],
                                 "given" if p.get("fixed") else "any",
                                 p["nbrokers"],
                                 "given" if p["nbrokers"] > 3 else "any",
                                 p.get("alloc", "all"),
                                 p.get("moves", False))})

    add("two", nparts=2, nbrokers=2, moves=True)
    add("three", nparts=3, nbrokers=2)
    add("subset", nparts=3, nbrokers=2, alloc="some")
    add("wide", nparts=9, nbrokers=2, fixed=True)
    add("wide-brokers", nparts=20, nbrokers=20, fixed=True)
    add("unknown", nparts=2, nbrokers=2, alloc="some", unknown=1)
    if deep:
        add("four", nparts=4, nbrokers=3)
        add("moves", nparts=3, nbrokers=3, moves=True)
        add("subset-4", nparts=4, nbrokers=3, alloc="some")
        add("five", nparts=5, nbrokers=2)
    return out

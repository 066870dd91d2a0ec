"""C10: messages go to their partition's leader, intact and in order."""
import json

from harness import prod, ref, sim
from harness.c09 import guard

REACH = ["several-partitions", "several-topics", "null-key", "null-value", "no-acks",
         "retry-order", "overlap", "default-partitioner", "moved", "gzip",
         "snappy", "plain"]
ASSUMPTIONS = [
    "the partitioner gives one message the same partition each time it is "
    "asked, and one of the partitions it is given",
    "order is about messages produced one after the other; calls that "
    "overlap on purpose are only ordered as they are queued",
    "partition ids are not negative"]


def content(ctx, name, kind):
    if kind == "none":
        return None
    return ctx.text(name, 2) if kind == "text" else ctx.bytes(name, int(kind))


def mark(i, key):
    if key is None:
        return None
    return ("%02d" % i if isinstance(key, str) else b"%02d" % i) + key


def want(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def deliver(ctx, n, batch, kinds, topics=1, compression=None, rounds=0,
            parts=2, move=False, spread=False, ids="any",
            free=99):
    net = sim.Net(ctx)
    const = ctx.kiel("constants")
    pids = [ctx.i32("pid") if ids == "any" else 3 * k + 1
            for k in range(parts)]
    for i in range(parts if ids == "any" else 0):
        ctx.assume(pids[i] >= 0)
        for j in range(i):
            ctx.assume(pids[i] != pids[j])
    names = ["t%d" % i for i in range(topics)]
    # every topic has its partitions spread differently
    layout = dict((t, [(pids[k], 1 + (k + i) % 3) for k in range(parts)])
                  for i, t in enumerate(names))
    acks, timeout = ctx.i16("acks"), ctx.i32("timeout")
    ctx.assume(acks != 0)
    cl = Cluster(net, [1, 2, 3], layout, rounds)
    asked = []
    chosen = {}

    def partitioner(key, partitions):
        i = owner(key)
        asked.append((i, list(partitions)))
        if i not in chosen:
            chosen[i] = ctx.pick("partition", parts)
        return pids[chosen[i]]

    def owner(key):
        # partitioners see the key only, so keys start with a number
        for i, (t, k, v) in enumerate(msgs):
            if k is None and key is None:
                return i
            if k is not None and key is not None and \
                    want(k)[:2] == want(key)[:2]:
                ctx.eq(want(key), want(k), "key given to the partitioner")
                return i
        ctx.fail("the partitioner was given another key")

    msgs = []
    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: msgs[m][2],
        key_maker=lambda m: msgs[m][1], partitioner=partitioner,
        batch_size=batch, required_acks=acks, ack_timeout=timeout,
        compression={None: None, "gzip": const.GZIP,
                     "snappy": const.SNAPPY}[compression])
    ctx.reach(compression or "plain")
    net.run(p.connect())
    for i in range(n):
        kk, vk = kinds[i % len(kinds)]
        msgs.append((names[i % topics if spread else ctx.pick("topic", topics)],
                     mark(i, content(ctx, "key", kk)),
                     content(ctx, "value", vk) if i < free else b"v"))
    for i in range(n):
        if msgs[i][1] is None:
            ctx.reach("null-key")
        if msgs[i][2] is None:
            ctx.reach("null-value")
        guard(ctx, lambda: net.run(p.produce(msgs[i][0], i)))
        net.settle()
        if move and i == 0:
            for t in names:
                layout[t] = [(q, 1 + b % 3) for q, b in layout[t]]
            ctx.reach("moved")
    for _ in range(3):
        guard(ctx, lambda: net.run(p.flush()))
    net.run(p.close())
    net.settle()
    if rounds:
        ctx.reach("retry-order")
    for b, q in net.seen(ref.PRODUCE):
        ctx.eq((q.acks, q.timeout), (acks, timeout), "acks and timeout")
    for i, given in asked:
        ctx.check(len(given) == parts, "partitions offered")
        for q in pids:
            ctx.check(ctx.lor(*[q == g for g in given]),
                      "a partition is not offered to the partitioner")
    ctx.check(len(cl.log) == n, "%d messages arrived instead of %d"
              % (len(cl.log), n))
    # per topic and partition, in the order produced
    used = set()
    for t in names:
        for k in range(parts):
            mine = [i for i in range(n)
                    if msgs[i][0] == t and chosen.get(i) == k]
            got = [(key, value) for (t2, k2, key, value) in cl.log
                   if t2 == t and k2 == k]
            ctx.check(len(got) == len(mine),
                      "partition %d of %s got %d messages instead of %d"
                      % (k, t, len(got), len(mine)))
            for i, (key, value) in zip(mine, got):
                ctx.eq(key, want(msgs[i][1]), "key of message %d" % i)
                ctx.eq(value, want(msgs[i][2]), "value of message %d" % i)
            if mine:
                used.add((t, k))
    if len(set(k for _, k in used)) > 1:
        ctx.reach("several-partitions")
    if len(set(t for t, _ in used)) > 1:
        ctx.reach("several-topics")
    ctx.note([sorted(used), len(net.seen(ref.PRODUCE))])


class Cluster(sim.Cluster):
    """layout {topic: [(partition id, leader)]}; only leaders accept."""

    def __init__(self, net, brokers, layout, rounds):
        self.layout, self.left = layout, rounds
        self.log = []
        sim.Cluster.__init__(self, net, brokers, {},
                             {ref.PRODUCE: self.produce})

    def metadata(self, broker, q):
        return ref.metadata_response(
            [(sim.real(b), "host%d" % b, 9000 + b) for b in self.reported],
            [(0, t, [(0, p, sim.real(l), [], []) for p, l in self.layout[t]])
             for t in sorted(self.layout)])

    def produce(self, broker, q):
        ctx = self.net.ctx
        out = []
        fail = False
        if self.left:
            self.left -= 1
            fail = ctx.flag("fails")
        for t, parts in q.topics:
            ctx.check(t in self.layout, "unknown topic on the wire")
            res = []
            for pid, entries in parts:
                k = [k for k, (p, _) in enumerate(self.layout[t])
                     if p == pid]
                ctx.check(len(k) == 1, "unknown partition on the wire")
                k = k[0]
                code = 0
                if self.layout[t][k][1] != broker.id:
                    code = 6
                elif fail:
                    code = 7
                else:
                    self.log.extend((t, k, key, value) for key, value in
                                    prod.unpack(ctx, entries))
                res.append((pid, code, 1))
            out.append((t, res))
        return ref.produce_response(out)


def overlap(ctx):
    """Messages queued while an earlier batch is still being refused."""
    net = sim.Net(ctx)
    held = []
    log = []

    def produce(broker, q):
        if not held:
            held.append(q)
            return sim.HOLD
        for t, parts in q.topics:
            for pid, entries in parts:
                log.extend(v for _, v in prod.unpack(ctx, entries))
        return ref.produce_response([
            (t, [(pid, 0, 1) for pid, _ in parts]) for t, parts in q.topics])

    cl = sim.Cluster(net, [1, 2], {"t": {0: 1}}, {ref.PRODUCE: produce})
    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m, batch_size=2,
        partitioner=lambda key, parts: parts[0])
    net.run(p.connect())
    vals = [ctx.bytes("v", 1) for _ in range(3)]
    net.run(p.produce("t", vals[0]))
    fut = net.go(p.produce("t", vals[1]))
    net.settle()
    ctx.check(len(held) == 1, "the batch was not sent")
    net.run(p.produce("t", vals[2]))
    code = ctx.i16("code")
    ctx.assume(ctx.lor(*[code == c for c in prod.RETRIABLE]))
    st = [s for s in net.streams if s.remote is cl.brokers[1] and
          not s.is_closed][0]
    if ctx.flag("drop"):
        st.shut()
    else:
        st.deliver(sim.answer(held[0].corr, ref.produce_response(
            [("t", [(0, code, 1)])])))
    net.run(fut)
    net.run(p.flush())
    net.run(p.flush())
    net.settle()
    ctx.reach("overlap")
    ctx.eq(log, vals, "order of the messages of one partition")


def defaults(ctx, parts):
    """Default partitioner and serializer, no key maker."""
    net = sim.Net(ctx)
    layout = {"t": [(10 + k, 1 + k % 2) for k in range(parts)]}
    cl = Cluster(net, [1, 2], layout, 0)
    p = ctx.kiel("clients.producer").Producer(cl.bootstrap)
    net.run(p.connect())
    docs = [{"b": [1, None], "a": "x"}, "text", 7]
    for d in docs:
        net.run(p.produce("t", d))
    net.settle()
    ctx.reach("default-partitioner")
    ctx.check(len(cl.log) == len(docs), "each sent once")
    for (t, k, key, value), d in zip(cl.log, docs):
        ctx.check(key is None, "key without a key maker")
        ctx.check(json.loads(value.decode("utf-8")) == d, "JSON value")
    ctx.note([[k, value.decode("utf-8")] for _, k, _, value in cl.log])


def unanswered(ctx, n):
    """Without acknowledgements nothing is answered, yet it is sent."""
    net = sim.Net(ctx)
    cl = Cluster(net, [1, 2, 3], {"t0": [(0, 1), (1, 2)]}, 0)
    timeout = ctx.i32("timeout")
    got = []

    def handle(broker, q):
        got.append((broker.id, q))
        return sim.HOLD

    cl.handlers[ref.PRODUCE] = handle
    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m, key_maker=lambda m: None,
        partitioner=lambda key, partitions: 0, batch_size=n,
        required_acks=0, ack_timeout=timeout)
    net.run(p.connect())
    value = ctx.bytes("value", 1)
    for i in range(n):
        net.go(p.produce("t0", value))
        net.settle()
    ctx.reach("no-acks")
    ctx.check(len(got) == 1 and got[0][0] == 1, "sent: %d" % len(got))
    q = got[0][1]
    ctx.eq((q.acks, q.timeout), (0, timeout), "acks and timeout")
    ctx.check(len(q.topics) == 1 and q.topics[0][0] == "t0" and
              len(q.topics[0][1]) == 1 and q.topics[0][1][0][0] == 0,
              "partitions")
    entries = q.topics[0][1][0][1]
    ctx.check(len(entries) == n, "messages")
    for e in entries:
        ctx.eq((e[4], e[5]), (None, value), "message")


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn="deliver", bound="", **p):
        out.append({"name": name, "fn": fn, "params": p,
                    "limits": {"samples": 3}, "bound": bound or
                    "%d messages (key/value forms %s), batches of %d, %d "
                    "topics of %d partitions with any ids, any acks and "
                    "timeout, up to %d refused requests" % (
                        p["n"], p["kinds"], p["batch"], p.get("topics", 1),
                        p.get("parts", 2), p.get("rounds", 0))})

    add("batch", n=3, batch=3, kinds=[["1", "2"], ["text", "1"],
                                      ["0", "0"]])
    add("single", n=2, batch=1, kinds=[["1", "none"], ["text", "text"]])
    add("null-key", n=1, batch=1, kinds=[["none", "3"]])
    add("null-keys", n=3, batch=3, kinds=[["1", "none"], ["none", "1"],
                                          ["1", "0"]])
    add("wide", n=1, batch=1, kinds=[["1", "1"]], parts=20, ids="fixed")
    add("wide-ids", n=1, batch=1, kinds=[["1", "1"]], parts=12)
    add("long", n=60, batch=60, free=2, kinds=[["0", "1"]], parts=1)
    add("long-topics", n=40, batch=40, free=2, kinds=[["0", "1"]], parts=1,
        topics=20, spread=True)
    add("topics", n=3, batch=3, kinds=[["1", "1"]], topics=2,
        spread=True)
    add("three-parts", n=2, batch=2, kinds=[["1", "1"]], parts=3)
    add("retry", n=3, batch=1, kinds=[["1", "1"]], rounds=2)
    add("retry-batch", n=3, batch=2, kinds=[["1", "1"]], rounds=1)
    add("moved", n=2, batch=1, kinds=[["1", "1"]], move=True)
    add("gzip", n=2, batch=2, kinds=[["1", "1"]], compression="gzip")
    add("snappy", n=2, batch=2, kinds=[["1", "1"]], compression="snappy")
    add("no-acks", fn="unanswered", n=2,
        bound="2 messages, no acknowledgements, any timeout")
    add("overlap", fn="overlap", bound="a batch of 2 refused with any "
        "retriable code or by disconnection while a third waits")
    add("defaults", fn="defaults", parts=2,
        bound="default partitioner, 3 fixed documents")
    if deep:
        add("batch-4", n=4, batch=4, kinds=[["1", "2"], ["text", "1"]])
        add("topics-4", n=4, batch=2, kinds=[["1", "1"]], topics=2)
        add("retry-4", n=4, batch=1, kinds=[["1", "1"]], rounds=3)
        add("three-topics", n=3, batch=3, kinds=[["1", "1"]], topics=3,
            parts=3)
        add("gzip-3", n=3, batch=3, kinds=[["1", "1"]],
            compression="gzip", rounds=1)
        add("defaults-3", fn="defaults", parts=3,
            bound="default partitioner, 3 fixed documents")
    return out

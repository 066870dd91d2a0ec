"""C11: batches flush exactly when full, and closing flushes the rest."""
from harness import prod, ref, sim

REACH = ["held", "flushed-full", "several-topics", "close-flushed",
         "close-empty", "after-close", "while-closing", "manual-flush",
         "unknown-topic", "batch-zero", "put-back-flushed", "close-waiting", "appeared"]
ASSUMPTIONS = [
    "brokers accept what they are sent (failures are C09's subject)",
    "the batch size is not changed while in use",
    "calls whose request is being written are waited for before closing"]


def batches(ctx, n, topics, hi, ops):
    """n operations; the batch size is any integer from 0 to hi."""
    net = sim.Net(ctx)
    names = ["t%d" % i for i in range(topics)]
    cl = prod.Cluster(net, [1, 2], dict(
        (t, {0: 1, 1: 2}) for t in names))
    size = ctx.int("batch", 0, hi)
    where = {}

    def partitioner(key, partitions):
        return sorted(partitions)[key[-1] % 2]

    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m[1], key_maker=lambda m: m[0],
        partitioner=partitioner, batch_size=size)
    net.run(p.connect())
    net.settle()
    queued, used = [], set()

    def arrived():
        return [r[2] for r in cl.acked]

    count = 0
    for i in range(n):
        op = ctx.choice("op", ops)
        if op == "flush":
            net.run(p.flush())
            net.settle()
            ctx.reach("manual-flush")
            queued = []
            ctx.check(len(arrived()) == count, "flush left messages behind")
            continue
        if op == "unknown":
            net.run(p.produce("nope", (b"x0", b"v")))
            net.settle()
            ctx.reach("unknown-topic")
            ctx.check(len(arrived()) == count - len(queued),
                      "a message for an unknown topic caused a flush")
            continue
        t = names[0] if topics == 1 else names[ctx.pick("topic", topics)]
        used.add(t)
        key = b"m%d" % count
        count += 1
        queued.append(key)
        net.run(p.produce(t, (key, b"v")))
        net.settle()
        got = arrived()
        if ctx.lor(size == 0, size <= len(queued)):
            if size == 0:
                ctx.reach("batch-zero")
            ctx.reach("flushed-full")
            ctx.check(len(got) == count, "%d of %d messages sent although "
                      "the batch is full" % (len(got), count))
            queued = []
        else:
            ctx.reach("held")
            ctx.check(len(got) == count - len(queued),
                      "sent before the batch was full")
    if len(used) > 1:
        ctx.reach("several-topics")
    live = [s for s in net.streams if not s.is_closed]
    fut = net.go(p.close())
    if ctx.flag("while-closing"):
        # not accepted once closing has begun
        net.run(p.produce(names[0], (b"late0", b"v")))
        ctx.reach("while-closing")
    net.run(fut)
    net.settle()
    ctx.reach("close-flushed" if queued else "close-empty")
    got = arrived()
    ctx.check(sorted(got) == sorted(b"m%d" % i for i in range(count)),
              "after closing the brokers have %s" % got)
    ctx.check(all(s.is_closed for s in net.streams),
              "a connection is left open")
    seen = len(net.requests)
    net.run(p.produce(names[0], (b"late1", b"v")))
    net.settle()
    ctx.reach("after-close")
    ctx.check(len(net.requests) == seen and len(net.connects) == len(
        net.streams), "something is sent after closing")
    ctx.check(len(arrived()) == count, "accepted after closing")
    ctx.note([count, len(cl.seen_raw)])


def leftovers(ctx, n, rounds):
    """Messages put back after a failure are sent when closing."""
    net = sim.Net(ctx)
    cl = prod.Cluster(net, [1, 2, 3], {"t": {0: 1, 1: 2}}, rounds,
                      ["code", "drop", "ok"])
    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m[1], key_maker=lambda m: m[0],
        partitioner=lambda key, parts: sorted(parts)[key[-1] % 2],
        batch_size=n)
    net.run(p.connect())
    for i in range(n):
        net.run(p.produce("t", (b"m%d" % i, b"v")))
    net.settle()
    cl.left = 0
    net.run(p.close())
    net.settle()
    if len(cl.seen_raw) > 2:
        ctx.reach("put-back-flushed")
    got = sorted(set(r[2] for r in cl.acked))
    ctx.check(got == [b"m%d" % i for i in range(n)],
              "after closing the brokers have %s" % got)
    ctx.check(all(s.is_closed for s in net.streams),
              "a connection is left open")


def during(ctx, n, k, ops):
    """More is queued, then the client closed, while the answer to an
    earlier batch is still out."""
    net = sim.Net(ctx)
    cl = prod.Cluster(net, [1, 2], {"t": {0: 1, 1: 2}})
    held = []
    slow = [True]
    plain = cl.handlers[ref.PRODUCE]

    def later(broker, q):
        out = plain(broker, q)
        if slow[0]:
            held.append((broker, out))
            return sim.HOLD
        return out

    for b in cl.brokers.values():
        b.handlers = dict(b.handlers)
        b.handlers[ref.PRODUCE] = later
    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m[1], key_maker=lambda m: m[0],
        partitioner=lambda key, parts: sorted(parts)[key[-1] % 2],
        batch_size=n)
    net.run(p.connect())
    net.settle()
    futs = []
    for i in range(n + k):
        futs.append(net.go(p.produce("t", (b"m%d" % i, b"v"))))
        net.settle()
    sent = [r[2] for r in cl.stored]
    full = (n + k) // n * n
    ctx.check(sorted(sent) == [b"m%d" % i for i in range(full)],
              "sent: %s" % sent)
    ctx.reach("close-waiting")
    op = ctx.choice("op", ops)
    if op == "flush":
        futs.append(net.go(p.flush()))
        net.settle()
    futs.append(net.go(p.close()))
    net.settle()
    slow[0] = False
    while held:
        b, out = held.pop(0)
        for s in net.streams:
            if s.remote is b and not s.is_closed:
                net.event(s.deliver, out.data, out.then)
    for f in futs:
        try:
            net.run(f)
        except ctx.kiel("exc").KielError:
            pass
    net.settle()
    got = [r[2] for r in cl.stored]
    ctx.check(sorted(got) == [b"m%d" % i for i in range(n + k)],
              "after closing the brokers have %s" % got)
    ctx.check(all(s.is_closed for s in net.streams),
              "a connection is left open")


def appearing(ctx, queued, size, limit):
    """Closing at any step of a call that looks for its topic."""
    net = sim.Net(ctx)
    cl = prod.Cluster(net, [1, 2], {"t": {0: 1, 1: 2}})
    p = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m[1], key_maker=lambda m: m[0],
        partitioner=lambda key, parts: sorted(parts)[key[-1] % 2],
        batch_size=size)
    net.run(p.connect())
    for i in range(queued):
        net.run(p.produce("t", (b"m%d" % i, b"v")))
    net.settle()
    cl.topics["new"] = {0: 2, 1: 1}
    futs, steps = [], [0]

    def maybe():
        if len(futs) == 1:
            steps[0] += 1
            if steps[0] > limit or ctx.flag("close"):
                futs.append(None)
                futs[1] = net.go(p.close())

    futs.append(net.go(p.produce("new", (b"n0", b"v"))))
    net.loop.before_step = maybe
    net.settle()
    net.loop.before_step = None
    if len(futs) == 1:
        futs.append(net.go(p.close()))
    net.settle()
    accepted = True
    for f in futs:
        try:
            net.run(f)
        except ctx.kiel("exc").KielError:
            accepted = False
    net.settle()
    ctx.reach("appeared")
    got = sorted(r[2] for r in cl.stored)
    ctx.check([k for k in got if k != b"n0"] ==
              [b"m%d" % i for i in range(queued)],
              "after closing the brokers have %s" % got)
    ctx.check(got.count(b"n0") < 2, "sent twice")
    ctx.check(p.unsent_count == 0, "a message is still queued after closing")
    ctx.check(all(s.is_closed for s in net.streams),
              "a connection is left open")
    ctx.note([accepted, len(got)])


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, **p):
        out.append({"name": name, "fn": "batches", "params": p,
                    "limits": {"samples": 3},
                    "bound": "%d operations out of %s, %d topics, any batch "
                             "size up to %d" % (p["n"], p["ops"],
                                                p["topics"], p["hi"])})

    add("produce", n=4, topics=1, hi=100, ops=["produce"])
    add("long", n=40, topics=1, hi=1000, ops=["produce"])
    add("topics", n=3, topics=2, hi=4, ops=["produce"])
    add("mixed", n=3, topics=1, hi=4, ops=["produce", "flush", "unknown"])
    for n, r in ((1, 1), (2, 2)) + (((3, 3),) if deep else ()):
        out.append({"name": "leftovers-%d" % n, "fn": "leftovers",
                    "params": {"n": n, "rounds": r},
                    "bound": "%d messages, the first %d requests refused "
                             "with any retriable code, dropped or accepted, "
                             "then close" % (n, r)})
    for n, k in ((1, 0), (2, 1), (3, 2), (2, 3)) + (
            ((4, 3), (5, 4), (3, 5)) if deep else ()):
        out.append({"name": "during-%d-%d" % (n, k), "fn": "during",
                    "params": {"n": n, "k": k,
                               "ops": ["close", "flush"]},
                    "bound": "%d messages in batches of %d, then close, "
                             "while no produce request has been answered"
                             % (n + k, n)})
    for queued, size in ((0, 3), (1, 3), (2, 7)):
        out.append({"name": "appearing-%d-%d" % (queued, size),
                    "fn": "appearing", "limits": {"samples": 3},
                    "params": {"queued": queued, "size": size, "limit": 16},
                    "bound": "%d messages queued, batches of %d, closed at "
                             "any of the first 16 steps of producing to a "
                             "topic that is new" % (queued, size)})
    if deep:
        add("produce-7", n=7, topics=1, hi=100, ops=["produce"])
        add("topics-4", n=4, topics=3, hi=5, ops=["produce"])
        add("mixed-4", n=4, topics=2, hi=5, ops=["produce", "flush",
                                                "unknown"])
    return out

"""C09: a produced message is delivered or kept for retry, never lost."""
from harness import prod, ref, sim

REACH = ["outcome-ok", "outcome-code", "outcome-mixed", "outcome-drop",
         "outcome-lost-ack", "outcome-garbage", "outcome-cut",
         "outcome-fatal", "leader-moved", "broker-died", "topic-gone",
         "retried", "concurrent", "acked-stays", "leader-away",
         "outage"]
ASSUMPTIONS = [
    "a broker's answer covers every partition of the request, and every "
    "request is answered or its connection ends (so not required_acks=0)",
    "at least one broker connection survives, or the application connects "
    "again (a client without any connection cannot refresh)",
    "a message refused with a code that is not retriable is logged and "
    "dropped, as documented",
    "serializer, key maker and partitioner do not raise"]


def build(ctx, net, cl, batch, compression=None, spread="pick"):
    const = ctx.kiel("constants")
    where = {}

    def partitioner(key, partitions):
        k = bytes(key) if not isinstance(key, bytes) else key
        if k not in where:
            where[k] = ctx.pick("partition", 2) if spread == "pick" \
                else (k[-1] if spread == "each" else spread)
        return sorted(partitions)[where[k] % len(partitions)]

    producer = ctx.kiel("clients.producer").Producer(
        cl.bootstrap, serializer=lambda m: m[1], key_maker=lambda m: m[0],
        partitioner=partitioner, batch_size=batch,
        compression={None: None, "gzip": const.GZIP,
                     "snappy": const.SNAPPY}[compression])
    net.run(producer.connect())
    net.settle()
    return producer


def guard(ctx, fut_or_fn):
    try:
        return fut_or_fn()
    except ctx.kiel("exc").KielError:
        return None


def history(ctx, n, batch, kinds, rounds, steps, order="fifo",
            concurrent=False, compression=None, topics=1,
            spread="each", away=(), free=99,
            outage=()):
    """n messages, with `steps` (moves, deaths, flushes) picked between.
    away = (i, j): after message i broker 1 is lost and slow to accept a
    new connection; from message j on a flush is attempted meanwhile.
    outage = (i, j): all brokers die, in the middle of message i's requests
    or right before message j; they are back when the client connects
    again."""
    net = sim.Net(ctx)
    names = ["t%d" % i for i in range(topics)]
    cl = prod.Cluster(net, [1, 2, 3], dict(
        (t, {0: 1, 1: 2}) for t in names), rounds, kinds)
    p = build(ctx, net, cl, batch, compression, spread)
    net.order = order
    sent = []
    futs = []
    for i in range(n):
        t = names[i % topics]
        msg = (b"m%d" % i, ctx.bytes("value", 1) if i < free else b"v")
        sent.append((t, msg[0], msg[1]))
        if outage:
            cl.dying = i == outage[0]
            if i == outage[1] and ctx.flag("outage"):
                ctx.reach("outage")
                for b in cl.brokers.values():
                    b.kill()
                if ctx.flag("noticed"):
                    net.settle()
        fut = net.go(p.produce(t, msg))
        if concurrent:
            ctx.reach("concurrent")
            futs.append(fut)
        else:
            guard(ctx, lambda: net.run(fut))
        if away and i == away[0]:
            ctx.reach("broker-died")
            cl.brokers[1].kill()
            cl.brokers[1].up = cl.brokers[1].slow = True
            futs.append(net.go(p.flush()))
            net.settle()
        if away and i >= away[1]:
            ctx.reach("leader-away")
            futs.append(net.go(p.flush()))
            net.settle()
        if steps:
            step(ctx, net, cl, p, steps, names)
    for b in cl.brokers.values():
        b.release()
    for f in futs:
        guard(ctx, lambda: net.run(f))
    net.settle()
    before = list(cl.acked)
    # from here on everything works
    net.order = "fifo"
    cl.left = 0
    cl.dying = False
    cl.gone.clear()
    for b in cl.brokers.values():
        b.up = True
    if outage:
        net.run(p.connect())
        net.settle()
    for _ in range(3):
        guard(ctx, lambda: net.run(p.flush()))
        net.settle()
    net.run(p.close())
    net.settle()
    keys = [k for _, _, k, _ in cl.acked]
    for t, k, v in sent:
        hits = [r for r in cl.acked if r[2] == k]
        dropped = any(r[2] == k for r in cl.neutral)
        if dropped:
            ctx.check(not hits, "a refused message was sent again")
            continue
        ctx.check(len(hits) > 0, "message %r was lost" % k)
        ctx.check(len(hits) == 1, "message %r was acknowledged %d times"
                  % (k, len(hits)))
        ctx.eq(hits[0][0], t, "topic")
        ctx.eq(hits[0][3], v, "value")
        stored = [r for r in cl.stored if r[2] == k]
        lost = [r for r in cl.lost_acks if r[2] == k]
        ctx.check(len(stored) == 1 + len(lost),
                  "message %r was sent again after its acknowledgement" % k)
        if len(before) and hits[0] in before:
            ctx.reach("acked-stays")
        elif hits[0] not in before:
            ctx.reach("retried")
    ctx.check(len(keys) == len([k for _, k, _ in sent]) - len(
        set(r[2] for r in cl.neutral)), "messages from nowhere")
    ctx.note([len(cl.seen_raw), len(cl.stored), len(cl.lost_acks)])


def step(ctx, net, cl, p, steps, names):
    s = ctx.choice("step", ["none"] + steps)
    if s == "move":
        for t in names:
            cl.topics[t] = {0: 2, 1: 3}
        ctx.reach("leader-moved")
    elif s == "die":
        cl.brokers[1].kill()
        cl.brokers[1].up = True
        ctx.reach("broker-died")
    elif s == "die-move":
        cl.brokers[1].kill()
        for t in names:
            cl.topics[t] = {0: 3, 1: 2}
        cl.reported = [2, 3]
        ctx.reach("broker-died")
    elif s == "gone":
        # unknown for a while: only flushes happen meanwhile
        cl.gone.add(names[0])
        cl.brokers[1].kill()
        cl.brokers[1].up = True
        guard(ctx, lambda: net.run(p.flush()))
        net.settle()
        guard(ctx, lambda: net.run(p.flush()))
        net.settle()
        cl.gone.clear()
        ctx.reach("topic-gone")
    elif s == "flush":
        guard(ctx, lambda: net.run(p.flush()))
    net.settle()


def instances(tier):
    deep = tier == "thorough"
    out = []
    ALL = ["ok", "code", "drop", "lost-ack", "garbage", "cut", "fatal"]

    def add(name, **p):
        out.append({"name": name, "fn": "history", "params": p,
                    "limits": {"samples": 3},
                    "bound": "%d messages over 2 partitions, batches of %s, "
                             "the first %d requests each end in one of %s, "
                             "between messages %s; %s events" % (
                                 p["n"], p["batch"], p["rounds"], p["kinds"],
                                 p["steps"] or "nothing",
                                 p.get("order", "fifo"))})

    add("single", n=2, batch=1, kinds=ALL, rounds=2, steps=[])
    add("pair", n=2, batch=2, kinds=ALL, rounds=2, steps=[])
    add("mixed", n=3, batch=3, kinds=["mixed", "ok", "drop"], rounds=2,
        steps=[])
    add("one-each", n=2, batch=2, kinds=["mixed"], rounds=1, steps=[],
        spread="pick")
    add("zero", n=2, batch=0, kinds=["code", "drop"], rounds=3, steps=[])
    add("moves", n=2, batch=1, kinds=["ok", "drop"], rounds=1,
        steps=["move", "die", "die-move", "flush"])
    add("gone", n=2, batch=2, kinds=["ok", "code"], rounds=1,
        steps=["gone"])
    add("concurrent", n=2, batch=1, kinds=["ok", "code", "drop"], rounds=2,
        steps=[], order="any", concurrent=True)
    add("concurrent-3", n=3, batch=1, kinds=["mixed", "drop"], rounds=1,
        steps=[], concurrent=True)
    add("topics", n=2, batch=2, kinds=["mixed", "lost-ack"], rounds=2,
        steps=[], topics=2)
    add("topics-one-leader", n=2, batch=2, kinds=["mixed", "code", "drop"],
        rounds=2, steps=[], topics=2, spread=0)
    add("topics-any", n=3, batch=3, kinds=["mixed"], rounds=1, steps=[],
        topics=2, spread="pick")
    add("away", n=3, batch=4, kinds=["ok", "code"], rounds=1,
        steps=[], spread="pick", away=(0, 2))
    add("away-4", n=4, batch=5, kinds=["ok", "drop"], rounds=1,
        steps=[], spread="pick", away=(1, 3), topics=2)
    add("outage", n=3, batch=1, kinds=["ok", "code"], rounds=2, steps=[],
        outage=(0, 1))
    add("outage-batch", n=4, batch=2, kinds=["ok", "drop"], rounds=1,
        steps=[], outage=(1, 3), topics=2)
    add("outage-both", n=3, batch=2, kinds=["ok"], rounds=0, steps=[],
        outage=(1, 1), concurrent=True, order="any")
    add("long", n=40, batch=40, kinds=["ok", "code", "drop"], rounds=2,
        steps=[], free=1)
    add("long-single", free=1, n=30, batch=30, kinds=["ok", "code"], rounds=2,
        steps=[], topics=1, spread=0, concurrent=True)
    add("gzip", n=2, batch=2, kinds=["code", "drop"], rounds=1, steps=[],
        compression="gzip")
    if deep:
        add("single-3", n=3, batch=1, kinds=ALL, rounds=3, steps=[])
        add("pair-4", n=4, batch=2, kinds=ALL, rounds=2, steps=[])
        add("mixed-pick", n=3, batch=3, kinds=["mixed", "ok", "drop"],
            rounds=2, steps=[], spread="pick")
        add("mixed-4", n=4, batch=4, kinds=["mixed", "ok", "drop"],
            rounds=3, steps=[])
        add("moves-3", n=3, batch=1, kinds=["ok", "drop", "code"], rounds=2,
            steps=["move", "die", "die-move", "flush"])
        add("moves-2", n=3, batch=2, kinds=["ok", "drop"], rounds=2,
            steps=["move", "die", "gone"])
        add("concurrent-any", n=3, batch=1, kinds=["ok", "code", "drop"],
            rounds=2, steps=[], order="any", concurrent=True)
        add("topics-any-4", n=4, batch=4, kinds=["mixed"], rounds=1,
            steps=[], topics=2, spread="pick")
        add("away-5", n=5, batch=6, kinds=["ok", "drop"], rounds=2,
            steps=[], spread="pick", away=(1, 3))
        add("snappy", n=3, batch=2, kinds=["code", "drop"], rounds=2,
            steps=[], compression="snappy")
    return out

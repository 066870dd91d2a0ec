"""C27: overlapping calls on one client do not get in each other's way."""
import collections

from harness import cons, group, prod, ref, sim

REACH = ["overlap", "heals", "consumes", "produces", "mixed", "dead", "slow",
         "left", "new", "third", "grouped", "moved", "rejected",
         "manual"]
ASSUMPTIONS = [
    "at least one broker stays connected",
    "brokers that are reported accept connections in the end",
    "consume calls that overlap are for different topics"]


def overlap(ctx, kind, ops, before=(), order="fifo", limit=12):
    """Each call starts at any step of those before it."""
    net = sim.Net(ctx)
    names = ["t0", "t1", "t2"]
    layout = {"t0": {0: 1, 1: 2}, "t1": {0: 2, 1: 3}, "t2": {0: 3, 1: 1}}
    brokers = [1, 2, 3]
    position = {}
    count = {}
    served = {}

    def on_fetch(broker, topic, pid, offset):
        if layout[topic][pid] != broker.id:
            return 6, b""
        ctx.eq(offset, position[topic, pid], "position of %s:%d" % (topic,
                                                                    pid))
        n = served.setdefault((topic, pid), 0)
        served[topic, pid] += 1
        v = ("%s:%d:%d" % (topic, pid, n)).encode()
        return 0, ref.message_set([(offset, None, v)])

    def on_offset(broker, topic, pid, time):
        if layout[topic][pid] != broker.id:
            return 6, []
        position[topic, pid] = ctx.int(
            "start", 0, 2 ** 62)
        return 0, [position[topic, pid]]

    if kind == "producer":
        cl = prod.Cluster(net, brokers, layout)
        c = ctx.kiel("clients.producer").Producer(
            cl.bootstrap, serializer=lambda m: m, key_maker=lambda m: m,
            partitioner=lambda key, parts: sorted(parts)[key[-1] % 2
                                                         % len(parts)],
            batch_size=3 if "queued" in before else 1)
    elif kind == "single":
        cl = cons.Cluster(net, brokers, layout, on_offset, on_fetch)
        c = ctx.kiel("clients.single").SingleConsumer(
            cl.bootstrap, deserializer=ref.utf8)
    else:
        cl = sim.Cluster(net, brokers, layout)
        c = ctx.kiel("clients.client").Client(cl.bootstrap)
    net.run(c.connect())
    net.settle()
    if "first" in before:
        for t in names:
            handed(ctx, t, net.run(c.consume(t)), position, count)
        net.settle()
    started, results = [], []
    wanted = []
    if "queued" in before:
        for k in (0, 1):
            wanted.append(("t0", b"q%d" % k))
            net.run(c.produce("t0", b"q%d" % k))
        net.settle()
    victim = cl.brokers[2]
    if "dead" in before or "slow" in before:
        victim.kill()
        victim.up = True
        victim.slow = "slow" in before
        ctx.reach("slow" if victim.slow else "dead")
    if "left" in before:
        ctx.reach("left")
        cl.reported = [1, 3]
        for t in names:
            for p, b in list(layout[t].items()):
                if b == 2:
                    layout[t][p] = 4 - layout[t][1 - p] if \
                        layout[t][1 - p] != 2 else 1
        victim.kill()
    if "new" in before:
        ctx.reach("new")
        cl.brokers[4] = sim.Broker(net, 4, "host4", 9004, cl.handlers)
        cl.reported = cl.reported + [4]
        layout["t0"][1] = 4
        if "slow" in before:
            cl.brokers[4].slow = True
    if "noticed" in before:
        net.settle()
    net.order = order

    def call():
        op = ops[len(started)]
        started.append(op)
        if op == "heal":
            f = net.go(c.cluster.heal())
        elif op.startswith("t"):
            f = net.go(c.consume(op))
        elif op == "flush":
            f = net.go(c.flush())
        else:
            t, k = op[1:].split("=")
            key = b"k" + k.encode()
            wanted.append((t, key))
            f = net.go(c.produce(t, key))
        results.append(f)

    steps = [0]

    def maybe():
        if len(started) < len(ops):
            steps[0] += 1
            if steps[0] > limit or ctx.flag("start"):
                call()

    call()
    net.loop.before_step = maybe
    net.settle()
    while len(started) < len(ops):
        call()
        net.settle()
    net.loop.before_step = None
    for b in cl.brokers.values():
        b.release()
    net.settle()
    ctx.reach("overlap")
    if len(ops) > 2:
        ctx.reach("third")
    kinds = set(o[0] for o in ops)
    ctx.reach("heals" if kinds == {"h"} else "consumes" if kinds == {"t"}
              else "produces" if kinds == {"p"} else "mixed")
    for op, f in zip(ops, results):
        try:
            r = net.run(f)
        except Exception as e:
            ctx.alive()
            ctx.fail("%s ended with %s: %s" % (op, type(e).__name__, e))
        if op.startswith("t"):
            handed(ctx, op, r, position, count)
    net.settle()
    net.order = "fifo"

    # all is well afterwards
    try:
        net.run(c.cluster.heal())
        net.settle()
        net.run(c.cluster.heal())
    except Exception as e:
        ctx.alive()
        ctx.fail("refreshing ended with %s: %s" % (type(e).__name__, e))
    net.settle()
    for b in cl.brokers.values():
        live = [s for s in net.streams if s.remote is b and not s.is_closed]
        ctx.check(len(live) == (b.id in cl.reported),
                  "%d connections to broker %d" % (len(live), b.id))
    if kind == "single":
        for t in names:
            got = net.run(c.consume(t))
            handed(ctx, t, got, position, count)
            net.settle()
            ctx.check(len(got) == len(layout[t]), "%d messages of %s" % (
                len(got), t))
    if kind == "producer":
        for _ in range(3):
            net.run(c.flush())
        net.settle()
        for t, k in wanted:
            n = len([1 for a in cl.acked if a[0] == t and a[2] == k])
            ctx.check(n == 1, "%r of %s was acknowledged %d times" % (
                k, t, n))
        ctx.check(len(cl.acked) == len(wanted), "messages from nowhere")
    if kind != "base":
        net.run(c.close())
        net.settle()
    else:
        c.cluster.stop()
        net.settle()
    left = [s.address for s in net.streams if not s.is_closed]
    ctx.check(not left, "closing leaves connections to %s" % left)
    ctx.note([ops, len(net.connects)])


def grouped(ctx, ops, fault=None, codes=0, order="fifo", limit=12, auto=True):
    """Calls of a grouped consumer; each starts at any step of those before it,
    but not while there is one for the same topic."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    topics = {"t0": {0: 1, 1: 2}, "t1": {0: 2}}
    position, count, served, stored = {}, {}, {}, {}
    shadow = collections.defaultdict(int)
    state = {"codes": codes, "fault": fault}

    def on_position(broker, topic, pid):
        if broker.id != cl.coordinator:
            return 16, -1
        p = topic, pid
        if p not in stored:
            stored[p] = position[p] = ctx.int("stored", 0, 2 ** 62)
        return 0, stored[p]

    def on_fetch(broker, topic, pid, offset):
        if topics[topic][pid] != broker.id:
            return 6, b""
        p = topic, pid
        ctx.eq(offset, position[p], "position of %s:%d" % p)
        n = served.setdefault(p, 0)
        served[p] += 1
        position[p] = position[p] + 1
        return 0, ref.message_set([(
            offset, None, ("%s:%d:%d" % (topic, pid, n)).encode())])

    def on_commit(broker, topic, pid, offset, metadata):
        if broker.id != cl.coordinator:
            return 16
        if state["codes"] and ctx.flag("reject"):
            ctx.reach("rejected")
            state["codes"] -= 1
            return 7
        stored[topic, pid] = offset
        return 0

    cl = group.Cluster(net, [1, 2, 8, 9], topics, on_fetch, 8)
    cl.on_position, cl.on_commit = on_position, on_commit
    c = group.consumer(ctx, cl, group.fixed(
        dict((t, sorted(topics[t])) for t in topics)), auto, ref.utf8)
    group.connect(ctx, net, server, c)
    for t in sorted(topics):
        handed(ctx, t, net.run(c.consume(t)), shadow, count)
    net.settle()
    net.order = order
    started, results = [], []

    def free():
        op = ops[len(started)]
        return all(f.done() for o, f in zip(started, results) if o == op)

    def call():
        op = ops[len(started)]
        started.append(op)
        f = net.go(c.cluster.heal() if op == "heal" else
                   c.commit_offsets() if op == "commit" else c.consume(op))
        results.append(f)

    steps = [0]

    def maybe():
        if len(started) < len(ops) and free():
            steps[0] += 1
            if (steps[0] > limit or ctx.flag("start")):
                steps[0] = 0
                call()
        if state["fault"] and ctx.flag("fault"):
            state["fault"] = None
            cl.coordinator = 9
            if fault == "moved":
                ctx.reach("moved")
            else:
                ctx.reach("left")
                cl.leave(8)

    call()
    net.loop.before_step = maybe
    net.settle()
    while len(started) < len(ops):
        ctx.check(free(), "%s does not end" % (ops[len(started)],))
        call()
        net.settle()
    net.loop.before_step = None
    ctx.reach("grouped")
    for op, f in zip(ops, results):
        try:
            r = net.run(f)
        except Exception as e:
            ctx.alive()
            ctx.fail("%s ended with %s: %s" % (op, type(e).__name__, e))
        if op in topics:
            ctx.check(len(r) == len(topics[op]), "%d messages of %s" % (
                len(r), op))
            handed(ctx, op, r, shadow, count)
    net.settle()
    if not auto:
        ctx.reach("manual")
        net.run(c.commit_offsets())
        net.settle()
    for t in topics:
        for p in topics[t]:
            ctx.eq(stored[t, p], position[t, p],
                   "committed position of %s:%d" % (t, p))
    ctx.check(not server.errors, "%r" % server.errors)
    ctx.note([ops, len(net.requests)])


def handed(ctx, topic, got, position, count):
    ctx.check(isinstance(got, list), "not a list")
    for v in got:
        t, p, o = bytes(v).split(b":")
        ctx.check(t == topic.encode(), "%s got %r" % (topic, v))
        k = topic, int(p)
        ctx.check(count.get(k, 0) == int(o), "%r handed out, expected %d" %
                  (v, count.get(k, 0)))
        count[k] = int(o) + 1
        position[k] = position[k] + 1


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(kind, ops, before=(), **p):
        p.update(kind=kind, ops=list(ops), before=list(before))
        out.append({
            "name": "-".join([kind] + p["ops"] + p["before"] +
                             ([p["order"]] if "order" in p else [])),
            "fn": "overlap", "params": p, "limits": {"samples": 3},
            "bound": "calls %s, each started at any of the first %d steps "
                     "of those before it, brokers: %s; %s events" % (
                         ops, p.get("limit", 12),
                         ", ".join(before) or "all fine",
                         p.get("order", "fifo"))})

    for before in (["new"], ["dead", "noticed"], ["slow", "noticed"],
                   ["left", "noticed"], ["left", "new"], ["dead"]):
        add("base", ["heal", "heal"], before, limit=16)
    add("base", ["heal", "heal", "heal"], ["new"], limit=10)
    add("single", ["t0", "t1"])
    add("single", ["t0", "t1"], ["first", "dead"])
    add("single", ["t0", "t1"], ["first", "slow", "noticed"])
    add("single", ["t0", "t1"], ["first", "left"])
    add("single", ["heal", "t1"], ["first", "dead", "noticed"])
    add("single", ["heal", "t1"], ["slow", "noticed"])
    add("single", ["heal", "t0"], ["first", "left", "noticed"])
    add("single", ["t0", "t1", "t2"], ["first", "slow"], limit=6)
    add("producer", ["pt0=0", "pt1=1"], ["dead"])
    add("producer", ["pt0=1", "pt1=0"], ["slow", "noticed"])
    add("producer", ["pt0=1", "pt1=0"], ["left"])
    add("producer", ["pt0=1", "heal", "pt1=0"], ["dead"], limit=6)
    add("producer", ["heal", "flush"], ["queued", "new"], limit=20)
    add("producer", ["heal", "pt1=1"], ["queued", "new"], limit=20)
    add("producer", ["heal", "flush"], ["queued", "left", "noticed"],
        limit=20)
    add("producer", ["flush", "pt0=4", "flush"], ["queued", "dead"],
        limit=8)
    def together(ops, fault=None, codes=0, **p):
        p.update(ops=ops, fault=fault, codes=codes)
        late, manual = "order" in p, "auto" in p
        out.append({
            "name": "-".join(
                ["grouped"] + ops + [fault] * bool(fault) +
                ["%d" % codes] * bool(codes) + ["late"] * late +
                ["manual"] * manual),
            "fn": "grouped", "params": p, "limits": {"samples": 3},
            "bound": "calls %s of a grouped consumer, each started at any of "
                     "the first %d steps; automatic commits %s; coordinator: "
                     "%s at any step; up to %d rejected commits%s" % (
                         ops, p.get("limit", 12), "off" if manual else "on",
                         fault or "fine", codes,
                         "; its answers come last" * late)})

    together(["t0", "t1"])
    together(["t0", "t1"], codes=1, limit=8)
    together(["t0", "t1"], "moved", limit=5)
    together(["t0", "t1"], "left", limit=5)
    together(["t0", "commit"], codes=1, limit=8)
    together(["heal", "t0"])
    together(["t0", "t1", "t0"], codes=1, limit=3, order=8)
    together(["commit", "t0"], codes=1, limit=8, auto=False)
    together(["commit", "t0", "t1"], limit=4, order=8, auto=False)
    if deep:
        together(["t0", "t1", "t0", "t1"], codes=1)
        together(["t0", "t1"], "moved", 1)
        together(["t0", "t1"], "left", 1)
        together(["t0", "commit", "t1"], codes=2)
        for before in (["new", "slow"], ["left", "new", "noticed"],
                       ["dead", "new"]):
            add("base", ["heal", "heal", "heal"], before, limit=16)
        add("base", ["heal", "heal"], ["new"], limit=16, order="any")
        add("single", ["t0", "t1", "t2"], ["first", "left"], limit=10)
        add("single", ["t0", "t1", "t2"], ["dead"], limit=10)
        add("single", ["t0", "t1"], ["first", "dead"], limit=8, order="any")
        add("producer", ["pt0=1", "pt1=0", "pt0=3"], ["slow"], limit=10)
        add("producer", ["pt0=1", "pt1=0"], ["dead"], limit=8, order="any")
    return out

"""C28: topics and partitions that appear or vanish are noticed."""
from harness import cons, group, prod, ref, sim

REACH = ["appears", "never", "grows", "shrinks", "vanishes", "returns",
         "single", "producer", "broker-new", "no-partitions", "partly"]
ASSUMPTIONS = [
    "the cluster is otherwise healthy while metadata is refreshed",
    "a topic known to the client is only looked up again when some broker "
    "answers with an error or fails; refreshing is part of the history"]
OTHER = "other"


class World(object):
    """The topics grow and shrink by choice; what is right follows."""

    def __init__(self, ctx, kind, layout, spread, batch=1):
        self.ctx, self.kind = ctx, kind
        self.net = net = sim.Net(ctx)
        ctx.reach(kind)
        self.layout = layout
        self.spread = spread
        self.start = ctx.i64("from")
        self.positions, self.end = {}, {}
        self.fetched, self.asked = [], []
        self.chosen = []
        if kind == "producer":
            self.cl = prod.Cluster(net, [1, 2], layout)
            self.c = ctx.kiel("clients.producer").Producer(
                self.cl.bootstrap, serializer=lambda m: m,
                partitioner=self.partition, batch_size=batch)
        else:
            self.cl = cons.Cluster(net, [1, 2], layout, self.on_offset,
                                   self.on_fetch)
            self.c = ctx.kiel("clients.single").SingleConsumer(
                self.cl.bootstrap, deserializer=ref.utf8)
        net.run(self.c.connect())
        net.settle()

    def partition(self, key, parts):
        self.chosen.append(list(parts))
        return parts[self.ctx.pick("partition", len(parts))]

    def on_offset(self, broker, topic, pid, time):
        self.ctx.check(self.layout[topic][pid] == broker.id, "wrong leader")
        self.ctx.check((topic, pid) not in self.positions,
                       "asked for a known position")
        self.ctx.eq(time, self.start, "start")
        self.asked.append((topic, pid))
        self.positions[topic, pid] = self.ctx.int("start", 0, 2 ** 40)
        return 0, [self.positions[topic, pid]]

    def on_fetch(self, broker, topic, pid, offset):
        self.fetched.append((topic, pid))
        if self.layout.get(topic, {}).get(pid) != broker.id:
            return 3, b""
        self.ctx.eq(offset, self.positions[topic, pid], "position of %s %d"
                    % (topic, pid))
        return 0, b""

    def use(self, topic):
        """One call, then what it must have done."""
        ctx, net = self.ctx, self.net
        known = self.layout.get(topic, {})
        if self.kind == "producer":
            before = len(self.cl.acked)
            del self.chosen[:]
            net.run(self.c.produce(topic, b"m"))
            net.settle()
            rows = self.cl.acked[before:]
            if not known:
                ctx.check(not rows, "produced to a topic without partitions")
                return
            ctx.check(len(rows) == 1 and rows[0][0] == topic,
                      "arrived: %r" % rows)
            ctx.check(sorted(self.chosen[-1]) == sorted(known),
                      "offered %r of %r" % (self.chosen, sorted(known)))
        else:
            del self.fetched[:], self.asked[:]
            got = net.run(self.c.consume(topic, self.start))
            net.settle()
            ctx.check(got == [], "messages from nowhere")
            ctx.check(sorted(self.fetched) == [(topic, p) for p in
                                               sorted(known)],
                      "fetched %r, there are %r" % (self.fetched,
                                                    sorted(known)))

    def refresh(self):
        self.net.run(self.c.cluster.heal())
        self.net.settle()


def appear(ctx, kind, spread):
    """A topic is not there, then it is, with any number of partitions."""
    w = World(ctx, kind, {OTHER: {0: 1}}, spread)
    for _ in range(ctx.choice("tries", [0, 1, 2])):
        asked = len(w.net.seen(ref.METADATA))
        w.use("t")
        ctx.reach("never")
        ctx.check(len(w.net.seen(ref.METADATA)) > asked, "not looked for")
        ctx.check(not w.net.seen(ref.PRODUCE) and not w.net.seen(ref.FETCH)
                  and not w.net.seen(ref.OFFSET), "asked for nothing")
        w.use(OTHER) if ctx.flag("other") and kind == "producer" else None
        del w.net.requests[:]
    w.layout["t"] = dict((p, ctx.choice("leader", spread))
                         for p in range(ctx.choice("partitions", [1, 2])))
    if max(w.layout["t"].values()) > 2:
        b = max(w.layout["t"].values())
        ctx.reach("broker-new")
        w.cl.brokers[b] = sim.Broker(w.net, b, "host%d" % b, 9000 + b,
                                     w.cl.handlers)
        w.cl.reported.append(b)
    ctx.reach("appears")
    w.use("t")
    w.use(OTHER)
    w.use("t")


def wide(ctx, kind, n):
    """A topic grows a lot."""
    w = World(ctx, kind, {"t": {0: 1, 1: 2}, OTHER: {0: 2}}, [1, 2])
    w.use("t")
    w.layout["t"] = dict((p, 1 + p % 2) for p in range(n))
    w.refresh()
    ctx.reach("grows")
    w.use("t")
    w.use(OTHER)


def queued(ctx, n):
    """A topic appears while messages for another one are waiting."""
    w = World(ctx, "producer", {OTHER: {0: 1}}, [1], batch=n + 1)
    net, c = w.net, w.c
    for _ in range(n):
        net.run(c.produce(OTHER, b"m"))
    if ctx.flag("before"):
        net.run(c.produce("t", b"m"))
        ctx.reach("never")
    net.settle()
    ctx.check(not w.cl.acked, "sent %r" % w.cl.acked)
    w.layout["t"] = {0: ctx.choice("leader", [1, 2])}
    net.run(c.produce("t", b"m"))
    net.settle()
    ctx.reach("appears")
    ctx.check(sorted(r[0] for r in w.cl.acked) == [OTHER] * n + ["t"],
              "sent %r" % w.cl.acked)


def change(ctx, kind, spread, rounds):
    """Partitions of a used topic come and go."""
    w = World(ctx, kind, {"t": {0: 1, 1: 2}, OTHER: {0: 2}}, spread)
    w.use("t")
    w.use(OTHER)
    for _ in range(rounds):
        now = w.layout.get("t", {})
        what = ctx.choice("change", ["grows", "shrinks", "vanishes"]
                          if now else ["returns"])
        if what in ("grows", "returns"):
            new = dict(now)
            new[max(list(now) + [-1]) + 1] = ctx.choice("leader", spread)
            w.layout["t"] = new
        elif what == "shrinks":
            new = dict(now)
            new.pop(ctx.choice("which", sorted(new)))
            if not new:
                ctx.reach("no-partitions")
            w.layout["t"] = new
        else:
            w.layout.pop("t")
        ctx.reach(what)
        w.refresh()
        w.use("t")
        w.use(OTHER)


def partly(ctx, n):
    """One of several topics with waiting messages vanishes, and returns."""
    names = ["t%d" % i for i in range(n)]
    w = World(ctx, "producer", dict((t, {0: 1, 1: 2}) for t in names), [1, 2],
              batch=n + 1)
    net, c = w.net, w.c
    for t in names:
        net.run(c.produce(t, b"m"))
    gone = ctx.choice("gone", names)
    was = w.layout.pop(gone)
    w.refresh()
    rest = [t for t in names if t != gone]
    net.run(c.produce(rest[0], b"m"))       # that fills the batch
    net.settle()
    ctx.reach("partly")
    got = sorted(r[0] for r in w.cl.acked)
    ctx.check(got == sorted(rest + rest[:1]), "sent %r without %s" % (
        got, gone))
    w.layout[gone] = was
    w.refresh()
    net.run(c.flush())
    net.settle()
    got = sorted(r[0] for r in w.cl.acked)
    ctx.check(got == sorted(names + rest[:1]), "sent %r in the end" % got)


def instances(tier):
    deep = tier == "thorough"
    out = []
    for n in (1, 3):
        out.append({"name": "queued-%d" % n, "fn": "queued",
                    "params": {"n": n},
                    "limits": {"samples": 3},
                    "bound": "a topic appears while %d messages for another "
                             "one wait" % n})
    for n in (2, 4):
        out.append({"name": "partly-%d" % n, "fn": "partly",
                    "params": {"n": n}, "limits": {"samples": 3},
                    "bound": "any of %d topics with waiting messages "
                             "vanishes, the others' are flushed" % n})
    for kind in ("single", "producer"):
        out.append({"name": "wide-" + kind, "fn": "wide",
                    "params": {"kind": kind, "n": 20},
                    "limits": {"samples": 3},
                    "bound": "%s, a topic of 2 partitions grows to 20"
                             % kind})
        out.append({"name": "appear-" + kind, "fn": "appear",
                    "params": {"kind": kind, "spread": [1, 2, 3]},
                    "limits": {"samples": 3},
                    "bound": "%s, up to 2 calls before the topic exists, 1 "
                             "or 2 partitions led by any of brokers 1 to 3"
                             % kind})
        for n in (1, 2) + ((3,) if deep else ()):
            out.append({"name": "change-%s-%d" % (kind, n), "fn": "change",
                        "params": {"kind": kind, "rounds": n,
                                   "spread": [1, 2]},
                        "limits": {"samples": 3},
                        "bound": "%s, a used topic of 2 partitions gains or "
                                 "loses partitions, vanishes or returns %d "
                                 "times" % (kind, n)})
    return out

"""C26: a closed client leaves nothing open and sends nothing more."""
from kazoo import exceptions as kazoo_exceptions

from harness import cons, group, prod, ref, sim

REACH = ["idle", "before-answer", "after", "connecting", "healing",
         "zk-gone", "left", "retired", "nobody", "producer", "single", "grouped", "base"]
ASSUMPTIONS = [
    "brokers answer or hang up, and accept or refuse connections, "
    "eventually",
    "the client is closed once, and a grouped one after it has connected",
    "what closing itself sends (what was queued, leaving the group) may "
    "fail; the error may be passed on"]


class World(object):
    def __init__(self, ctx, kind, hosts=None):
        self.ctx, self.kind = ctx, kind
        self.net = net = sim.Net(ctx)
        self.server = None
        ctx.reach(kind)
        brokers, topics = [1, 2], {"t": {0: 1, 1: 2}}
        self.hosts = hosts
        if kind == "producer":
            cl = prod.Cluster(net, brokers, topics)
            self.client = ctx.kiel("clients.producer").Producer(
                cl.bootstrap[:hosts], serializer=lambda m: m, batch_size=2,
                partitioner=lambda key, parts: sorted(parts)[0])
        elif kind == "single":
            cl = cons.Cluster(net, brokers, topics, lambda *a: (0, [5]),
                              self.fetch)
            self.client = ctx.kiel("clients.single").SingleConsumer(
                cl.bootstrap[:hosts], deserializer=ref.utf8)
        elif kind == "base":
            cl = sim.Cluster(net, brokers, topics)
            base = ctx.kiel("clients.client").Client
            gen = __import__("tornado.gen").gen

            class Probe(base):
                @gen.coroutine
                def wind_down(self):
                    pass

            self.client = Probe(cl.bootstrap[:hosts])
        else:
            self.server = group.setup(ctx, net)
            cl = group.Cluster(net, brokers, topics, self.fetch, 1)
            cl.on_position = lambda *a: (0, 5)
            cl.on_commit = lambda *a: 0
            self.client = group.consumer(ctx, cl,
                                         group.fixed({"t": [0, 1]}))
        self.cl = cl
        self.broken = False

    def fetch(self, broker, topic, pid, offset):
        return 0, ref.message_set([(offset, None, b"v")])

    def connect(self):
        if self.server is not None:
            group.connect(self.ctx, self.net, self.server, self.client)
        else:
            self.net.run(self.client.connect())
            self.net.settle()

    def call(self, op):
        return self.net.go(self.begin(op))

    def begin(self, op):
        c = self.client
        if op == "connect":
            return c.connect()
        if op == "heal":
            return c.cluster.heal()
        if op == "unknown":
            return c.produce("nope", b"v") if self.kind == "producer" \
                else c.consume("nope")
        if op == "commit":
            return c.commit_offsets()
        if op == "flush":
            return c.flush()
        if self.kind == "producer":
            self.net.go(c.produce("t", b"m1"))
            return c.produce("t", b"m2")
        return c.consume("t")

    def ends(self, fut, what):
        """Waits for it, whatever its outcome."""
        net = self.net
        try:
            net.run(fut)
        except Exception as e:
            self.ctx.alive()
            if not fut.done():
                raise
            return e
        return None


def close(ctx, kind, op, before=(), fault=None, order="fifo", limit=12,
          hosts=None):
    """Closing at any step of a call."""
    w = World(ctx, kind, hosts)
    net, cl, c = w.net, w.cl, w.client
    if op != "connect":
        w.connect()
    if kind in ("single", "grouped") and "first" in before:
        net.run(c.consume("t"))
        net.settle()
    if kind == "producer" and "queued" in before:
        net.run(c.produce("t", b"m0"))
    closing, steps = [], [0]
    gone = None
    if "dead" in before or "slow" in before or "left" in before:
        ctx.reach("healing")
        gone = cl.brokers[2]
        gone.kill()
        gone.up = "dead" not in before
        gone.slow = "slow" in before
        if "left" in before:
            gone.up = False
            cl.reported = [1]
            for parts in cl.topics.values():
                parts[1] = 1
        net.settle()
    if "retired" in before:
        # nothing is reported about it anymore, though it still runs
        ctx.reach("retired")
        cl.reported = [1]
        for parts in cl.topics.values():
            for p in parts:
                parts[p] = 1
    if "nobody" in before:
        ctx.reach("nobody")
        for b in cl.brokers.values():
            b.kill()
        net.settle()
    if "new" in before:
        # more brokers to connect to
        for b in (3, 4):
            cl.brokers[b] = sim.Broker(net, b, "host%d" % b, 9000 + b,
                                       cl.handlers)
            cl.reported.append(b)
            ctx.reach("healing")
    if "zk-lost" in before:
        ctx.reach("zk-gone")
        w.server.clients[0].lose()
    if "zk-error" in before:
        ctx.reach("zk-gone")

        def before_request():
            if closing:
                raise kazoo_exceptions.ConnectionLoss()
        w.server.before = before_request
    net.order = order
    def begin():
        if not closing:
            closing.append(None)
            closing[0] = net.go(c.close())

    def maybe():
        if not closing:
            steps[0] += 1
            if steps[0] > limit or ctx.flag("close"):
                begin()

    fut = None
    if op is not None:
        if op == "connect":
            ctx.reach("connecting")
        net.loop.before_step = maybe
        fut = w.call(op)
        if "slow" in before:
            # it is let through only after closing
            while not closing and (net.loop.step() or net.pump()):
                pass
        else:
            w.ends(fut, op)
        if closing:
            ctx.reach("before-answer")
        else:
            ctx.reach("after")
    else:
        ctx.reach("idle")
    begin()
    net.loop.before_step = None
    net.settle()
    for b in cl.brokers.values():
        b.release()
    w.ends(closing[0], "close")
    if fut is not None:
        w.ends(fut, op)
    net.settle()
    if w.server is not None:
        w.server.drain()
        net.settle()

    def quiet(when):
        left = [s.address for s in net.streams if not s.is_closed]
        ctx.check(not left, "still connected to %s %s" % (left, when))
        if w.server is not None:
            for z in w.server.clients:
                ctx.check(not z.started and z.closed,
                          "ZooKeeper is still connected %s" % when)
            ctx.check(not w.server.children(group.MEMBERS),
                      "still a member %s" % when)
            ctx.reach("left")

    quiet("after closing")
    sent, tries = len(net.requests), len(net.connects)
    writes = len(w.server.writes) if w.server is not None else 0
    # nothing happens anymore
    for again in ("use", "use"):
        if kind == "base":
            break
        w.ends(w.call(again), "a call after closing")
        net.settle()
        if w.server is not None:
            w.server.drain()
    ctx.check(len(net.requests) == sent, "asked something after closing")
    ctx.check(len(net.connects) == tries, "connected again after closing")
    if w.server is not None:
        ctx.check(len(w.server.writes) == writes,
                  "changed something in ZooKeeper after closing")
    quiet("later on")
    ctx.note([kind, op, steps[0]])


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(kind, op, before=(), name=None, **p):
        p.update(kind=kind, op=op, before=list(before))
        out.append({
            "name": name or "-".join([kind, op or "idle"] + list(before)),
            "fn": "close", "params": p, "limits": {"samples": 3},
            "bound": "%s with %s, closed before any of the first %d steps "
                     "of %s; %s events" % (
                         kind, ", ".join(before) or "nothing special",
                         p.get("limit", 12), op or "nothing",
                         p.get("order", "fifo"))})

    for kind in ("base", "producer", "single"):
        add(kind, "connect")
    for kind in ("producer", "single", "grouped"):
        add(kind, None, ["queued"] if kind == "producer" else ["first"])
        add(kind, "use", limit=30)
        add(kind, "unknown")
        add(kind, "heal", ["new"])
        add(kind, "use", ["slow", "first"], limit=20)
        add(kind, "heal", ["retired"])
        add(kind, "use", ["retired"], limit=20)
    for kind in ("base", "producer", "single"):
        add(kind, None, name=kind + "-one-host", hosts=1)
    add("base", "connect", name="base-connect-one-host", hosts=1)
    add("base", "heal", ["retired", "new"], limit=20)
    add("base", "heal", ["new"], limit=20)
    add("base", "heal", ["dead"], limit=20)
    add("base", "heal", ["slow"])
    add("base", "heal", ["left", "new"], limit=20)
    add("producer", "flush", ["queued"], limit=20)
    add("producer", None, ["queued", "nobody"])
    add("producer", None, ["queued", "dead"])
    add("single", "use", ["first", "dead"], limit=30)
    add("grouped", "commit", ["first"])
    add("grouped", None, ["nobody"])
    add("grouped", None, ["first", "zk-lost"])
    add("grouped", "use", ["first", "zk-lost"], limit=30)
    add("grouped", "use", ["first", "zk-error"], limit=30)
    if deep:
        for kind in ("producer", "single", "grouped"):
            add(kind, "use", ["first", "left"], limit=40)
            add(kind, "use", ["new"], limit=40, order="any")
            add(kind, "heal", ["new", "slow"], limit=40)
        add("base", "heal", ["new"], limit=60, order="any",
            name="base-heal-new-any")
    return out

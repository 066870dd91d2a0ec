"""Brokers and ZooKeeper as a grouped consumer sees them."""
from harness import cons, ref, sim, zk

GROUP = "g"
MEMBERS = "/kiel/groups/g/members"
PARTITIONS = "/kiel/groups/g/partitions"


class Cluster(cons.Cluster):
    """coordinator: the id of the broker that stores the group's offsets.

    on_find(broker) -> (code, broker id)
    on_position(broker, topic, pid) -> (code, offset)
    on_commit(broker, topic, pid, offset, metadata) -> code
    lose(broker, q) -> how the answer gets lost, or None"""

    def __init__(self, net, brokers, topics, on_fetch, coordinator):
        cons.Cluster.__init__(self, net, brokers, topics, None, on_fetch)
        self.fail_fetch = False
        self.coordinator = coordinator
        self.on_find = lambda broker: (0, self.coordinator)
        self.on_position = self.on_commit = None
        self.lose = lambda broker, q: None
        self.handlers.update({
            ref.GROUP_COORDINATOR: self.find,
            ref.OFFSET_FETCH: self.positions,
            ref.OFFSET_COMMIT: self.commit})

    def maybe(self, broker, q, body):
        how = self.lose(broker, q)
        if how is not None:
            self.failing[broker.id] = how
        return self.lost(broker, q, body)

    def check_group(self, q):
        self.net.ctx.check(q.group == GROUP, "group %r" % (q.group,))

    def find(self, broker, q):
        self.check_group(q)
        code, bid = self.on_find(broker)
        if bid is None:
            body = ref.coordinator_response(code, -1, "", -1)
        else:
            body = ref.coordinator_response(code, sim.real(bid), "host%d" % bid,
                                            9000 + bid)
        return self.maybe(broker, q, body)

    def positions(self, broker, q):
        self.check_group(q)
        return self.maybe(broker, q, ref.offset_fetch_response([
            (t, [(pid, off, "", code) for pid in pids
                 for code, off in [self.on_position(broker, t, pid)]])
            for t, pids in q.topics]))

    def commit(self, broker, q):
        self.check_group(q)
        return self.maybe(broker, q, ref.offset_commit_response([
            (t, [(pid, self.on_commit(broker, t, pid, off, meta))
                 for pid, off, meta in parts])
            for t, parts in q.topics]))

    def leave(self, bid):
        """The broker dies and the others notice."""
        self.reported = [b for b in self.reported if b != bid]
        for parts in self.topics.values():
            for p, leader in list(parts.items()):
                if leader == bid:
                    parts[p] = self.reported[0]
        self.brokers[bid].kill()


def consumer(ctx, cl, allocator=None, autocommit=True, deserializer=ref.utf8,
             **kw):
    return ctx.kiel("clients.grouped").GroupedConsumer(
        cl.bootstrap, GROUP, ["zk1:2181", "zk2:2181"],
        deserializer=deserializer, partition_allocator=allocator,
        autocommit=autocommit, **kw)


def fixed(share):
    """An allocator function giving every member the same share."""
    def allocate(members, partitions):
        return dict((m, dict((t, list(ps)) for t, ps in share.items()))
                    for m in members)
    return allocate


def connect(ctx, net, server, c):
    net.run(c.connect())
    net.settle()
    server.drain()


def setup(ctx, net, order="fifo"):
    server = zk.Server(ctx)
    zk.attach(net, server, order)
    return server


def retriable(ctx, code):
    return ctx.lor(*[code == c for c in cons.RETRIABLE])


def default_allocator(ctx):
    """What a grouped consumer uses unless told otherwise."""
    mod = ctx.kiel("clients.grouped")
    a = getattr(mod.GroupedConsumer(["h"], "g", ["z"]), "allocator", None)
    fn = getattr(a, "allocator_fn", None)
    return mod.naive_allocator if fn is None else fn

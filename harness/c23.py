"""C23: refreshed metadata mirrors what the brokers reported."""
from harness import ref, sim

REACH = ["broker-gone", "broker-new", "unreachable", "broker-died",
         "electing-topic", "electing-partition", "unknown-topic",
         "leader-elsewhere", "leader-none", "replica-missing", "re-asked",
         "answerer-fails", "nobody-left", "dies-during"]
ASSUMPTIONS = [
    "the cluster settles: after the rounds of arbitrary answers every broker "
    "reported is reachable and every partition has a connected leader",
    "a topic reported with an error carries no partitions; what happens to "
    "one whose error is neither unknown (3), leader not available (5) nor "
    "replica not available (9) is left open",
    "a partition with an error other than leader not available (5) or "
    "replica not available (9) is left open too",
    "a broker keeps its host and port while it keeps its id"]


class Report(object):
    """What one metadata answer says, and whether a client may stop at it."""

    def __init__(self, brokers, topics):
        self.brokers, self.topics = brokers, topics

    def raw(self):
        return ref.metadata_response(
            [(b, "h%d" % b, 9000 + b) for b in self.brokers],
            [(code, name, [(c, p, l, [], []) for c, p, l in parts])
             for code, name, parts in self.topics])


class World(object):
    def __init__(self, ctx, rounds, shape, universe, dynamics):
        self.ctx = ctx
        self.net = net = sim.Net(ctx)
        self.rounds, self.shape, self.universe = rounds, shape, universe
        self.dynamics = dynamics
        self.brokers = dict((b, sim.Broker(net, b, "h%d" % b, 9000 + b, {
            ref.METADATA: self.metadata})) for b in universe)
        self.answers = []
        self.script = False

    def healthy(self, ids):
        return Report(list(ids), [
            (0, "t%d" % i, [(0, p, ids[(p + i) % len(ids)])
                            for p in range(n)])
            for i, n in enumerate(self.shape)])

    def metadata(self, broker, q):
        ctx = self.ctx
        names = q.topics
        if not self.script:
            r = self.healthy(self.universe[:2])
        elif len(self.answers) >= self.rounds:
            for b in self.universe:
                self.brokers[b].up = True
            self.net.connect_fault.clear()
            r = self.healthy(self.final)
        else:
            if "fail" in self.dynamics and ctx.flag("fails"):
                ctx.reach("answerer-fails")
                if "garbage" in self.dynamics and ctx.flag("garbage"):
                    return sim.Raw(sim.answer(q.corr, b"\x7f\x00\x00\x00"))
                broker.kill()
                broker.up = True
                return sim.HOLD
            r = self.arbitrary(broker)
        if names:
            r.topics = [t for t in r.topics if t[1] in names]
        self.answers.append(r)
        return r.raw()

    def arbitrary(self, broker):
        ctx, u = self.ctx, self.universe
        if "brokers" in self.dynamics:
            ids = [b for b in u if ctx.flag("reported")]
            ctx.assume(bool(ids))
        else:
            ids = u[:2]
        if "up" in self.dynamics:
            for b in u:
                self.brokers[b].up = ctx.flag("up")
                if "odd" in self.dynamics and not self.brokers[b].up and \
                        ctx.flag("odd"):
                    self.net.connect_fault.add(("h%d" % b, 9000 + b))
        if "dies" in self.dynamics:
            for b in u:
                if b != broker.id and ctx.flag("dies"):
                    ctx.reach("dies-during")
                    self.brokers[b].kill()
                    self.brokers[b].up = True
        topics = []
        last = len(self.shape) - 1
        if "one-error" in self.dynamics:
            at = ctx.choice("where", [
                (i, p) for i in (0, last // 2, last)
                for p in (-1, 0, self.shape[i] - 1)])
        for i, n in enumerate(self.shape):
            if "one-error" in self.dynamics:
                # somewhere among many
                code = ctx.i16("topic-error") if (i, -1) == at else 0
                topics.append((code, "t%d" % i, [] if code != 0 else [
                    (ctx.i16("error") if (i, p) == at else 0, p,
                     u[(p + i) % len(u)]) for p in range(n)]))
            elif "errors" in self.dynamics:
                code = ctx.i16("topic-error")
                parts = []
                if code == 0:
                    parts = [(ctx.i16("error"), p, ctx.i32("leader"))
                             for p in range(n)]
                topics.append((code, "t%d" % i, parts))
            else:
                topics.append((0, "t%d" % i, [
                    (0, p, ctx.choice("leader", u)) for p in range(n)]))
        return Report(ids, topics)


def heal(ctx, rounds, shape, universe, dynamics, final):
    w = World(ctx, rounds, shape, universe, dynamics)
    w.final = final
    net = w.net
    c = ctx.kiel("cluster").Cluster(["h%d:%d" % (b, 9000 + b)
                                     for b in universe])
    net.run(c.start())
    net.settle()
    verify(ctx, w, c)
    w.script = True
    w.answers = []
    if "killed" in dynamics and ctx.flag("killed"):
        b = w.brokers[universe[ctx.pick("victim", 2)]]
        b.kill()
        if ctx.flag("noticed"):
            net.settle()
        b.up = ctx.flag("back")
        ctx.reach("broker-died")
    before = set(b for b in universe[:2])
    try:
        net.run(c.heal())
    except ctx.kiel("exc").NoBrokersError:
        net.settle()
        ctx.check(all(st.is_closed for st in net.streams),
                  "gave up although a broker is still connected")
        ctx.reach("nobody-left")
        return
    net.settle()
    ctx.check(bool(w.answers), "nothing was asked")
    if len(w.answers) > 1:
        ctx.reach("re-asked")
    last = w.answers[-1]
    if before - set(last.brokers):
        ctx.reach("broker-gone")
    if set(last.brokers) - before:
        ctx.reach("broker-new")
    for r in w.answers[:-1]:
        if "up" in dynamics or "killed" in dynamics:
            ctx.reach("unreachable")
    verify(ctx, w, c)
    ctx.note([len(w.answers), sorted(c), sorted(c.topics)])


def verify(ctx, w, c):
    """The cluster's view is the last answer's, and that one was settled."""
    last = w.answers[-1]
    ctx.eq(sorted(c), sorted(last.brokers), "connected brokers")
    for b in w.universe:
        live = [s for s in w.net.streams
                if s.address == ("h%d" % b, 9000 + b) and not s.is_closed]
        ctx.check(len(live) == (1 if b in last.brokers else 0),
                  "%d open connections to broker %s" % (len(live), b))
        if b in last.brokers:
            ctx.check(not c[b].closing, "a dead connection is kept")
    known = set()
    for code, name, parts in last.topics:
        if code == 3:
            ctx.reach("unknown-topic")
        if ctx.lor(code == 5, code == 9):
            ctx.fail("stopped although a topic is still electing")
        want, open_ = [], False
        for pcode, p, leader in parts:
            if pcode == 5:
                ctx.fail("stopped although a partition is still electing")
            if ctx.lor(pcode == 0, pcode == 9):
                if pcode == 9:
                    ctx.reach("replica-missing")
                ctx.check(ctx.lor(*[leader == b for b in last.brokers]),
                          "stopped although a leader is not connected")
                want.append(p)
                ctx.eq(c.get_leader(name, p), leader, "leader of %s" % p)
            else:
                open_ = True
        got = list(c.topics.get(name, []))
        if open_:
            got = [p for p in got if p in want]
        ctx.eq(sorted(got), want, "partitions of %s" % name)
        known.add(name)
    ctx.check(all(t in known for t in c.topics if c.topics[t]),
              "a topic that was not reported is kept")
    for r in w.answers[:-1]:
        for code, name, parts in r.topics:
            if ctx.lor(code == 5, code == 9):
                ctx.reach("electing-topic")
            for pcode, p, leader in parts:
                if pcode == 5:
                    ctx.reach("electing-partition")
                elif pcode == 0:
                    if ctx.land(*[leader != b for b in r.brokers]):
                        ctx.reach("leader-none" if leader == -1
                                  else "leader-elsewhere")


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, rounds, shape, universe, dynamics, final=None, bound=""):
        out.append({
            "name": name, "fn": "heal", "limits": {"samples": 3},
            "params": {"rounds": rounds, "shape": shape,
                       "universe": universe, "dynamics": dynamics,
                       "final": final or universe},
            "bound": "%d arbitrary answers (%s), topics of %s partitions, "
                     "brokers %s, then healthy answers; %s"
                     % (rounds, ", ".join(dynamics) or "leaders only",
                        shape, universe, bound)})

    add("errors-1", 1, [2], [0, 1], ["errors"])
    add("errors-2topics", 1, [1, 1], [0, 1], ["errors"])
    add("errors-2rounds", 2, [1], [0, 1], ["errors"])
    add("wide", 1, [24], [0, 1], ["one-error"])
    add("wide-topics", 1, [1] * 24, [0, 1], ["one-error"])
    add("wide-brokers", 1, [2], list(range(12)),
        ["one-error", "killed"])
    add("brokers", 1, [1], [0, 1, 2], ["brokers", "killed"])
    add("brokers-final", 1, [1], [0, 1, 2], ["brokers"], [1, 2])
    add("up", 1, [1], [0, 1, 2], ["brokers", "up"])
    add("odd", 1, [1], [0, 1, 2], ["brokers", "up", "odd"])
    add("fail", 1, [1], [0, 1], ["fail", "killed"])
    add("garbage", 2, [1], [0, 1, 2], ["fail", "garbage"])
    add("dies", 1, [1], [0, 1, 2], ["dies", "brokers"])
    if deep:
        add("errors-3p", 1, [3], [0, 1], ["errors"])
        add("errors-2x2", 2, [2], [0, 1, 2], ["errors"])
        add("brokers-2", 2, [1], [0, 1, 2], ["brokers", "killed"])
        add("up-2", 2, [1], [0, 1, 2], ["brokers", "up"])
        add("all", 1, [2], [0, 1, 2], ["brokers", "up", "dies", "fail",
                                       "killed"])
        add("four", 1, [1, 1], [0, 1, 2, 3], ["brokers", "up"])
    return out

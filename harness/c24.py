"""C24: start-up succeeds if any bootstrap host works, tried in order."""
from harness import ref, sim

REACH = ["refuse", "drop", "accept-drop", "partial", "garbage", "badsize",
         "unknown", "raises", "good", "none-works", "default-port",
         "same-host"]
ASSUMPTIONS = [
    "a host that accepts and then never answers nor closes is not covered "
    "(there are no timeouts)",
    "host names carry at most one colon, followed by a decimal port",
    "broker ids are not negative"]
MODES = ["good", "refuse", "drop", "accept-drop", "partial", "garbage",
         "badsize", "unknown", "raises"]


class Boot(sim.Broker):
    """A bootstrap host that fails in its own way."""

    def __init__(self, net, addr, mode, answer):
        self.mode, self.answer, self.asked = mode, answer, 0
        sim.Broker.__init__(self, net, addr, addr[0], addr[1], {})

    def accept(self, stream):
        if self.mode == "refuse":
            return "refuse"
        return "drop" if self.mode == "drop" else "ok"

    def handle(self, stream, q):
        ctx = self.net.ctx
        self.asked += 1
        ctx.check(q.api == ref.METADATA, "asked for something else")
        ctx.check(q.topics == [], "not asked about all topics")
        good = sim.answer(q.corr, self.answer)
        if self.mode == "accept-drop":
            return sim.DROP
        if self.mode == "partial":
            k = ctx.choice("cut", [1, 4, 6, 8, 11, len(good) - 1])
            return sim.Raw(good[:k], True)
        if self.mode == "garbage":
            n = ctx.choice("len", [0, 2, 5, 7])
            junk = ctx.bytes("junk", n)
            if n >= 4:
                ctx.assume(ref.Reader(junk).i32() != 0)
            return sim.Raw(sim.answer(q.corr, junk))
        if self.mode == "badsize":
            return sim.Raw(ref.i32(ctx.choice("size", [-7, 0, 3])) +
                           good[4:])
        if self.mode == "unknown":
            other = ctx.i32("other")
            ctx.assume(other != q.corr)
            return sim.Raw(sim.answer(other, self.answer))
        return self.answer


def start(ctx, n, modes, shared=False, one=False):
    net = sim.Net(ctx)
    names = ["h%d" % i for i in range(n)]
    if shared:
        # one machine, several brokers, one of them at the default port
        ctx.reach("same-host")
        names = ["h"] * n
        at = ctx.pick("default", n)
        ports = [9092 if i == at else 7000 + i for i in range(n)]
        hosts = ["h" if i == at else "h:%d" % p for i, p in enumerate(ports)]
    elif ctx.flag("default-port"):
        ctx.reach("default-port")
        ports = [9092] * n
        hosts = list(names)
    else:
        ports = [7000 + i for i in range(n)]
        hosts = ["h%d:%d" % (i, p) for i, p in enumerate(ports)]
        if n > 1:
            ports[1], hosts[1] = 9092, "h1"
    picked = []
    ids = [ctx.i32("id") for _ in range(2)]
    ctx.assume(ctx.land(ids[0] >= 0, ids[1] >= 0, ids[0] != ids[1]))
    for i in range(n):
        if one and i:
            # all alike but the last
            m = picked[0] if i < n - 1 else "good"
        else:
            m = ctx.choice("mode", modes)
        picked.append(m)
        # every host answers with its own view, so we see whose was used
        view = ref.metadata_response(
            [(b, "real%d" % k, 100 * i + 9000 + k)
             for k, b in enumerate(ids)],
            [(0, "t%d" % i, [(0, 3, ids[0], [ids[0]], [ids[0]]),
                             (0, 4, ids[1], [], [])])])
        Boot(net, (names[i], ports[i]), m, view)
        for k in range(2):
            sim.Broker(net, (i, k), "real%d" % k, 100 * i + 9000 + k, {})
        if m == "raises":
            net.connect_fault.add((names[i], ports[i]))
    exc = ctx.kiel("exc")
    c = ctx.kiel("cluster").Cluster(hosts)
    first = picked.index("good") if "good" in picked else None
    try:
        net.run(c.start())
    except exc.NoBrokersError:
        ctx.reach("none-works")
        ctx.check(first is None, "no brokers although host %s works (%s)"
                  % (first, picked))
        ctx.eq(net.connects, list(zip(names, ports)),
               "hosts tried")
        return
    except Exception as e:
        ctx.fail("start raised %s (%s)" % (type(e).__name__, picked))
    for m in picked[:first + 1] if first is not None else picked:
        ctx.reach(m)
    ctx.check(first is not None, "started without any working host")
    net.settle()
    ctx.eq(net.connects[:first + 1],
           list(zip(names, ports))[:first + 1], "hosts tried")
    ctx.check(all(a[0].startswith("real") for a in net.connects[first + 1:]),
              "tried more hosts after one that works")
    asked = [a for a in net.connects[first + 1:]]
    ctx.eq(sorted(asked), [("real%d" % k, 100 * first + 9000 + k)
                           for k in range(2)], "broker connections")
    ctx.eq(list(c.topics), ["t%d" % first], "topics")
    for k in range(2):
        ctx.check(ids[k] in c, "broker missing")
        ctx.eq(c.get_leader("t%d" % first, 3 + k), ids[k], "leader")
    # bootstrap connections do not linger
    for s in net.streams:
        ctx.check(s.is_closed or s.remote is None or s.address[0].startswith("real"),
                  "a bootstrap connection is left open")
    ctx.note([hosts, picked, net.connects])


def instances(tier):
    out = []
    deep = tier == "thorough"
    for n in (1, 2):
        out.append({"name": "all-%d" % n, "fn": "start",
                    "params": {"n": n, "modes": MODES},
                    "bound": "%d bootstrap hosts, every combination of %s"
                             % (n, MODES)})
    out.append({"name": "same-host", "fn": "start",
                "params": {"n": 2, "modes": MODES if deep else [
                    "good", "refuse", "garbage"], "shared": True},
                "bound": "2 bootstrap entries for one host with different "
                         "ports"})
    out.append({"name": "many", "fn": "start",
                "params": {"n": 10, "one": True, "modes": [
                    "refuse", "drop", "accept-drop", "unknown", "raises"]},
                "bound": "10 hosts, of which only the last works"})
    m = MODES if deep else ["good", "refuse", "accept-drop", "unknown"]
    for first in MODES[1:]:
        out.append({"name": "three-" + first, "fn": "start3",
                    "params": {"first": first, "modes": m},
                    "bound": "3 hosts, the first fails by %s, the others "
                             "any of %s" % (first, m)})
    return out


class Fixed(object):
    """A context whose first host has a given mode."""

    def __init__(self, ctx, first):
        self.ctx, self.first = ctx, first

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def choice(self, name, options):
        if name == "mode" and self.first is not None:
            r, self.first = self.first, None
            return r
        return self.ctx.choice(name, options)


def start3(ctx, first, modes):
    start(Fixed(ctx, first), 3, modes)

"""C22: group membership is an ephemeral node owned by the live session."""
from harness import group, sim, zk

REACH = ["absent", "own", "other", "plain", "vanished", "appeared",
         "left", "gone-already", "rejoined", "reported", "no-path",
         "expired", "two-parties", "taken"]
ASSUMPTIONS = [
    "ZooKeeper is correct; requests of others come in before any of this "
    "member's requests",
    "the node of a member has no children"]
PATH = "/the/party"
NAME = "host:1"
NODE = PATH + "/" + NAME


def client(ctx, server):
    c = zk.Client("zk")
    c.start()
    server.drain()
    return c


def party(ctx, c, seen):
    return ctx.kiel("zookeeper.party").Party(
        c, NAME, PATH, on_change=lambda ms: seen.append(sorted(ms)))


def prepare(ctx, server, c, prior):
    ctx.reach(prior)
    if prior == "own":
        server.create(NODE, b"", c.session, True)
    elif prior == "other":
        server.create(NODE, b"", 77, True)
    elif prior == "plain":
        server.create(NODE, b"", 0, True)


def races(ctx, server, kinds, times):
    """Another client does something before one of the requests."""
    left = [times]

    def before():
        if not left[0] or not ctx.flag("now"):
            return
        left[0] -= 1
        kind = ctx.choice("race", kinds)
        if kind == "vanish" and NODE in server.nodes and \
                server.nodes[NODE].owner == 77:
            ctx.reach("vanished")
            server.expire(77)
        elif kind == "appear" and NODE not in server.nodes and \
                PATH in server.nodes:
            ctx.reach("appeared")
            server.create(NODE, b"", 77)
        elif kind == "member":
            other = PATH + "/other"
            if other in server.nodes:
                server.delete(other)
            elif PATH in server.nodes:
                server.create(other, b"", 78)
        while server.pending and ctx.flag("deliver"):
            server.pump()
    server.before = before


def taken(ctx, server):
    """Somebody else removes the node before any of the next requests."""
    left = [1]

    def before():
        if left[0] and NODE in server.nodes and ctx.flag("remove"):
            left[0] = 0
            ctx.reach("taken")
            server.delete(NODE)
    server.before = before


def joined(ctx, server, c):
    n = server.nodes.get(NODE)
    ctx.check(n is not None, "the member's node is missing")
    ctx.check(n.owner == c.session, "the node belongs to session %r, not %r"
              % (n.owner, c.session))


def life(ctx, priors, kinds=(), times=0, steps=(), started=True,
         gone=False):
    """Joins over any prior state of the node, then goes through steps."""
    server = zk.Server(ctx)
    sim.Net(ctx)
    c = client(ctx, server)
    seen = []
    p = party(ctx, c, seen)
    prepare(ctx, server, c, ctx.choice("prior", priors))
    if started:
        p.start()
        ctx.check(PATH in server.nodes, "no party to join")
        ctx.check(seen and seen[-1] == sorted(server.children(PATH)),
                  "members at first: %r" % seen)
    elif PATH not in server.nodes:
        ctx.reach("no-path")
    if times:
        races(ctx, server, list(kinds), times)
    try:
        p.join()
    except zk.exceptions.NodeExistsError:
        # another session joined with this name just now
        ctx.check(server.nodes[NODE].owner == 77, "did not join: %r" %
                  server.nodes[NODE].owner)
        ctx.reach("refused")
        return
    server.before = None
    n = server.nodes.get(NODE)
    if n is not None and n.owner == 77 and "appear" in kinds:
        ctx.fail("joined, but the node belongs to another session")
    joined(ctx, server, c)
    reported(ctx, server, seen, started)
    for kinds in steps:
        kind = ctx.choice("step", kinds)
        if kind == "leave":
            if NODE in server.nodes:
                ctx.reach("left")
            else:
                ctx.reach("gone-already")
            if gone:
                taken(ctx, server)
            p.leave()
            server.before = None
            ctx.check(NODE not in server.nodes, "still a member")
        elif kind == "join":
            p.join()
            ctx.reach("rejoined")
            joined(ctx, server, c)
        elif kind == "expire":
            ctx.reach("expired")
            c.lose()
            ctx.check(NODE not in server.nodes, "the node outlives its "
                      "session")
            c.up()
            p.join()
            joined(ctx, server, c)
        elif kind == "stolen":
            # another session recreates the node
            if NODE in server.nodes:
                server.delete(NODE)
            server.create(NODE, b"", 79)
            p.join()
            joined(ctx, server, c)
        reported(ctx, server, seen, started)
    ctx.check(not server.errors, "%r" % server.errors)


def reported(ctx, server, seen, started):
    server.drain()
    if started:
        ctx.reach("reported")
        ctx.check(seen[-1] == sorted(server.children(PATH)),
                  "reported %r, not %r" % (seen[-1],
                                           server.children(PATH)))


def changes(ctx, count):
    """Every membership change is reported with all members."""
    server = zk.Server(ctx)
    sim.Net(ctx)
    c, d = client(ctx, server), client(ctx, server)
    seen, others = [], []
    p = party(ctx, c, seen)
    q = ctx.kiel("zookeeper.party").Party(
        d, "other:2", PATH, on_change=lambda ms: others.append(sorted(ms)))
    ctx.reach("two-parties")
    p.start()
    p.join()
    server.drain()
    q.start()
    for i in range(count):
        who = ctx.choice("who", ["p", "q", "r"])
        if who == "r":
            node = PATH + "/third"
            if node in server.nodes:
                server.delete(node)
            else:
                server.create(node, b"", 78)
        else:
            x = p if who == "p" else q
            x.leave() if ctx.flag("leave") else x.join()
        if ctx.flag("deliver"):
            server.drain()
            now = sorted(server.children(PATH))
            ctx.check(seen[-1] == now, "reported %r, not %r" % (seen[-1],
                                                                now))
            ctx.check(others[-1] == now, "reported %r, not %r to the other" %
                      (others[-1], now))
    server.drain()
    now = sorted(server.children(PATH))
    ctx.check(seen[-1] == now and others[-1] == now, "reported last: %r, %r"
              % (seen[-1], others[-1]))
    ctx.check(not server.errors, "%r" % server.errors)


def instances(tier):
    deep = tier == "thorough"
    out = []
    every = ["absent", "own", "other", "plain"]

    def add(name, fn, **p):
        if fn == "life":
            b = "prior node %s, %d actions of others (%s) before any request "\
                "of join, then steps %s" % (
                    "/".join(p["priors"]), p.get("times", 0),
                    "/".join(p.get("kinds", ())), p.get("steps", ()))
        else:
            b = "%d joins and leaves of 3 members" % p["count"]
        out.append({"name": name, "fn": fn, "params": p,
                    "limits": {"samples": 3}, "bound": b})

    steps = ["leave", "join", "expire", "stolen"]
    add("steps", "life", priors=every, steps=[steps, steps, steps])
    add("bare", "life", priors=every, started=False, steps=[["leave"]])
    add("race", "life", priors=every, kinds=["vanish", "appear", "member"],
        times=1)
    add("race-bare", "life", priors=every, kinds=["vanish"], times=1,
        started=False)
    add("taken", "life", priors=["absent", "other"], gone=True,
        steps=[["leave"], ["leave", "join"], ["leave"]])
    add("changes", "changes", count=3)
    if deep:
        add("steps-5", "life", priors=every, steps=[steps] * 5)
        add("race-2", "life", priors=["absent", "other"],
            kinds=["vanish", "member"], times=2, steps=[steps])
        add("changes-5", "changes", count=5)
    return out

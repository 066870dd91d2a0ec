"""C20: allocation follows membership and partition changes."""
import json

from kazoo import exceptions

from harness import group, ref, sim, zk

REACH = ["joined", "left", "grown", "shrunk", "rewritten", "batch", "nothing",
         "first", "populated", "own-add", "own-remove", "raced", "recreated",
         "session", "suspended", "mid-call", "late-report", "kept", "revoked",
         "gained", "default", "zk-error", "unharmed"]
ASSUMPTIONS = [
    "ZooKeeper is correct, and kazoo reports changes as its recipes do: a "
    "callback gets the state of the moment it runs, and none gets lost",
    "kazoo's callbacks run between steps of the event loop or while it waits",
    "a member whose session expires does not join again by itself",
    "the allocator function depends only on its arguments"]
ME = "me"
OTHERS = ["a", "z"]
EXTRA = ["t:1", "t:10", "u:0"]


def store(server, items):
    value = json.dumps(items).encode()
    if group.PARTITIONS in server.nodes:
        server.set(group.PARTITIONS, value)
    else:
        server.create(group.PARTITIONS, value, 0, True)


def stored(server):
    n = server.nodes.get(group.PARTITIONS)
    return set(json.loads(n.value.decode() or "[]")) if n else set()


def members(server):
    return set(server.children(group.MEMBERS))


def action(ctx, server, a, kinds):
    """Something happens to the group; returns its kind."""
    kind = ctx.choice("action", kinds)
    if kind == "member":
        m = group.MEMBERS + "/" + ctx.choice("who", OTHERS)
        if m in server.nodes:
            ctx.reach("left")
            server.delete(m)
        else:
            ctx.reach("joined")
            server.create(m, b"", 77, True)
    elif kind == "partition":
        now = stored(server)
        x = ctx.choice("item", EXTRA)
        if x in now:
            ctx.reach("shrunk")
            now.discard(x)
        else:
            ctx.reach("grown")
            now.add(x)
        store(server, sorted(now))
    elif kind == "rewrite":
        ctx.reach("rewritten")
        store(server, sorted(stored(server), reverse=True))
    elif kind == "add":
        ctx.reach("own-add")
        a.add_partitions({"t": [ctx.choice("id", [1, 10])]})
    elif kind == "remove":
        ctx.reach("own-remove")
        a.remove_partitions({"t": [1, 10]})
    elif kind == "wipe":
        if group.PARTITIONS + "/lock" in server.nodes:
            server.delete(group.PARTITIONS + "/lock")
        if group.PARTITIONS in server.nodes:
            ctx.reach("recreated")
            server.delete(group.PARTITIONS)
    elif kind == "suspend":
        ctx.reach("suspended")
        server.clients[-1].suspend()
        server.clients[-1].up()
    elif kind == "session":
        ctx.reach("session")
        server.clients[-1].lose()
        server.clients[-1].up()
    return kind


def events(ctx, prior, old, seeds, kinds, count, batch=False, race=(),
           default=False):
    """prior members and old partitions, then count actions."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    mod = ctx.kiel("zookeeper.allocator")
    calls, told = [], []
    if default:
        fn = group.default_allocator(ctx)
        ctx.reach("default")
    else:
        def fn(ms, ps):
            return dict((m, {"x": [i] + list(ps)}) for i, m in enumerate(ms))

    def allocator_fn(ms, ps):
        ctx.check(isinstance(ms, list) and isinstance(ps, list), "not lists")
        ctx.check(ms == sorted(ms) and ps == sorted(ps), "not sorted")
        calls.append((list(ms), list(ps)))
        return fn(ms, ps)

    for m in prior:
        server.create(group.MEMBERS + "/" + m, b"", 77, True)
    if old is not None:
        store(server, old)
    a = mod.PartitionAllocator(
        ["zk"], group.GROUP, ME, allocator_fn,
        on_rebalance=lambda: told.append(plain(a.allocation)))

    def verify(was):
        now = members(server), stored(server)
        want = fn(sorted(now[0]), sorted(now[1])).get(ME, {})
        ctx.check(plain(a.allocation) == plain(want),
                  "allocation is %r, not %r" % (plain(a.allocation),
                                                plain(want)))
        changes = sum(x != y for x, y in zip(was, now))
        if changes:
            ctx.check(calls and calls[-1] == (sorted(now[0]),
                                              sorted(now[1])),
                      "allocated for %r" % calls)
            ctx.check(told and told[-1] == plain(want), "told too early")
            ctx.check(len(told) <= changes, "disturbed %d times by %d "
                      "changes" % (len(told), changes))
        else:
            ctx.reach("nothing")
            ctx.check(not told, "disturbed by nothing")
        del calls[:], told[:]
        return now

    if race:
        left = [1]

        def before():
            if left and ctx.flag("now"):
                left.pop()
                ctx.reach("raced")
                if server.lock_holder.get(group.PARTITIONS + "/lock"):
                    action(ctx, server, a, [k for k in race
                                            if k == "member"])
                else:
                    action(ctx, server, a, race)
                while server.pending and ctx.flag("deliver"):
                    server.pump()
        server.before = before
    fut = net.go(a.start(dict(seeds)))
    server.before = None
    ctx.check(fut.done() and fut.exception() is None, "did not start: %r" %
              (fut.exception() if fut.done() else None,))
    server.drain()
    ctx.reach("first" if old is None else "populated")
    told_at_start = len(told)
    ctx.check(told_at_start > 0, "not told of the first allocation")
    ctx.check(ME in members(server), "is not a member")
    if not race:
        ctx.check(set("%s:%d" % (t, p) for t, ps in seeds.items()
                      for p in ps) <= stored(server), "seeds are missing")
    now = members(server), stored(server)
    del told[:-1]
    now = verify((None, now[1]))
    done = 0
    while done < count:
        n = 1
        action(ctx, server, a, kinds)
        if batch and done + 1 < count:
            n = 2
            ctx.reach("batch")
            action(ctx, server, a, kinds)
        done += n
        server.drain()
        server.drain()
        now = verify(now)
    net.run(a.stop())
    ctx.check(ME not in members(server), "still a member")
    ctx.check(not server.errors, "%r" % server.errors)


def late(ctx, prior, old):
    """ZooKeeper's first reports take their time, in any order."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    reported = set()
    for m in prior:
        server.create(group.MEMBERS + "/" + m, b"", 77, True)
    store(server, old)
    server.lazy = True

    def allocate(ms, ps):
        if ms:
            reported.add("members")
        if ps:
            reported.add("partitions")
        return dict((m, {"x": [i] + list(ps)}) for i, m in enumerate(ms))

    a = ctx.kiel("zookeeper.allocator").PartitionAllocator(
        ["zk"], group.GROUP, ME, allocate)
    fut = net.go(a.start({"t": [0]}))
    ctx.check(fut.done() and fut.exception() is None, "did not start")
    ctx.reach("late-report")
    ctx.check(len(reported) == 2, "started knowing only the %s" %
              ", ".join(reported))
    server.drain()
    ms, ps = sorted(members(server)), sorted(stored(server))
    ctx.check(plain(a.allocation) == plain({"x": [ms.index(ME)] + ps}),
              "allocation is %r" % plain(a.allocation))


def failing(ctx, old, what):
    """One request to ZooKeeper fails while starting up."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    if old is not None:
        store(server, old)
    cl = group.Cluster(net, [1], {"t": {0: 1, 1: 1}}, None, 1)
    left = [1]

    def before():
        if left and ctx.flag("fails"):
            left.pop()
            ctx.reach("zk-error")
            raise getattr(exceptions, what)()
    server.before = before
    c = group.consumer(ctx, cl)
    fut = net.go(c.connect())
    net.settle()
    server.drain()
    ctx.check(fut.done(), "never ends")
    if fut.exception() is None:
        ctx.reach("unharmed")
        ctx.check(len(members(server)) == 1, "connected without joining the "
                  "group")
        ctx.check({"t:0", "t:1"} <= stored(server), "connected without "
                  "storing the partitions")
    else:
        ctx.check(not left, "did not start: %r" % fut.exception())
    hosts = server.clients[-1].hosts
    if isinstance(hosts, str):
        hosts = hosts.split(",")
    ctx.check(list(hosts or []) == ["zk1:2181", "zk2:2181"],
              "ZooKeeper is looked for at %r" % (hosts,))


def plain(allocation):
    return sorted((t, list(ps)) for t, ps in allocation.items() if ps)


def midway(ctx, shares, kind, calls=2, autocommit=True, at=1,
           leaders=(1, 1)):
    """The allocation changes during a consume call: shares are what this
    consumer may get, the first one at first."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net, "any")
    st = {"epoch": 0, "share": None, "fixed": 0}
    epochs = {}
    asked, pos, fetched, stored_, committed = {}, {}, {}, {}, {}
    net.stamp = lambda: st["epoch"]
    q_now = [None]

    def allocate(ms, ps):
        old = st["share"]
        if st["fixed"] or old is None:
            st["share"] = shares[0]
        else:
            st["share"] = ctx.choice("share", shares)
        st["epoch"] += 1
        epochs[st["epoch"]] = st["share"]
        for p in stored_:
            if p not in (old or []):
                # its former owner has gone on
                stored_[p] = stored_[p] + ctx.choice("others", [0, 50])
        if old is not None and not st["fixed"]:
            if set(old) & set(st["share"]):
                ctx.reach("kept")
            if set(old) - set(st["share"]):
                ctx.reach("revoked")
            if set(st["share"]) - set(old):
                ctx.reach("gained")
        return dict((m, {"t": list(st["share"])}) for m in ms)

    def on_position(broker, topic, pid):
        e = q_now[0].stamp
        asked[pid] = e
        if pid not in stored_:
            stored_[pid] = 100 * (pid + 1)
        pos[pid] = stored_[pid]
        return 0, pos[pid]

    def on_fetch(broker, topic, pid, offset):
        e = q_now[0].stamp
        valid = asked.get(pid) == e
        if valid:
            ctx.check(pid in epochs[e], "fetched %d, which is not allocated" %
                      pid)
            ctx.eq(offset, pos[pid], "position of partition %d" % pid)
        else:
            ctx.check(st["moving"], "fetched %d without determining its "
                      "position again" % pid)
            ctx.reach("stale")
        st["n"] = st.get("n", 0) + 1
        v = b"v%d" % st["n"]
        fetched[v] = (pid, offset, valid, e)
        return 0, ref.message_set([(offset, None, v)])

    def on_commit(broker, topic, pid, offset, metadata):
        e = q_now[0].stamp
        ctx.check(pid in epochs[e], "committed %d, which is not allocated" %
                  pid)
        ctx.check(asked.get(pid) == e, "committed %d without determining its "
                  "position again" % pid)
        mine = [o + 1 for p, o, valid, e2 in fetched.values()
                if p == pid and valid and e2 == e]
        ctx.check(offset in mine + [pos[pid]], "committed position")
        committed[pid] = stored_[pid] = offset
        return 0

    def note(handle):
        def noting(broker, q):
            q_now[0] = q
            return handle(broker, q)
        return noting

    cl = group.Cluster(net, sorted(set(leaders) | {8}),
                       {"t": dict(enumerate(leaders))}, on_fetch, 8)
    cl.on_position, cl.on_commit = on_position, on_commit
    for api in (ref.OFFSET_FETCH, ref.OFFSET_COMMIT, ref.FETCH):
        cl.handlers[api] = note(cl.handlers[api])
    c = group.consumer(ctx, cl, allocate, autocommit)

    def maybe():
        if server.pending and st.get("moving") and ctx.flag("zk"):
            ctx.reach("mid-call")
            server.pump()

    if kind == "at-once":
        # what connecting brought about is not known yet
        st["fixed"], st["moving"] = 1, True
        net.run(c.connect())
        if server.pending:
            ctx.reach("at-once")
        net.loop.before_step = maybe
        got = net.run(c.consume("t"))
        judge(ctx, got, fetched, committed, pos, st)
    else:
        group.connect(ctx, net, server, c)
    net.loop.before_step = maybe
    for i in range(calls):
        fetched.clear(), committed.clear()
        epoch = st["epoch"]
        st["moving"] = i == at or kind == "both"
        if st["moving"] and kind != "at-once":
            if kind in ("member", "both"):
                server.create(group.MEMBERS + "/z%d" % i, b"", 77, True)
            else:
                store(server, ["t:0", "t:1", "u:0"])
        got = net.run(c.consume("t"))
        judge(ctx, got, fetched, committed, pos, st)
        if not autocommit:
            net.run(c.commit_offsets())
            judge(ctx, got, fetched, committed, pos, st)
        net.settle()
        server.drain()
    # and once more, undisturbed
    net.settle()
    server.drain()
    st["moving"], st["fixed"] = False, 0
    for _ in range(2):
        fetched.clear(), committed.clear()
        got = net.run(c.consume("t"))
        net.settle()
        ctx.check(sorted(p for p, _, _, _ in fetched.values()) ==
                  sorted(st["share"]), "fetched %r of %r" % (
                      sorted(fetched.values()), st["share"]))
        ctx.check(len(got) == len(st["share"]), "handed out %r" % got)
        judge(ctx, got, fetched, committed, pos, st)
        if autocommit:
            ctx.check(sorted(committed) == sorted(st["share"]),
                      "committed %r" % committed)
    ctx.check(plain(c.allocation) == plain({"t": st["share"]}), "allocation")
    ctx.check(not server.errors, "%r" % server.errors)


def judge(ctx, got, fetched, committed, pos, st):
    ctx.check(isinstance(got, list), "not a list")
    for v in got:
        v = v.encode() if not isinstance(v, bytes) else v
        ctx.check(v in fetched, "handed out %r" % v)
        pid, offset, valid, e = fetched[v]
        ctx.check(valid, "handed out what was fetched from a position of an "
                  "old allocation")
        pos[pid] = offset + 1
    for pid, offset in committed.items():
        ctx.check(offset <= pos[pid], "committed %d past what was handed out"
                  % pid)


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn, **p):
        if fn == "failing":
            b = "partitions %s before, any one request to ZooKeeper fails " \
                "(%s) while connecting" % (p["old"], p["what"])
        elif fn == "late":
            b = "members %s and partitions %s before, reports in any order" \
                % (p["prior"], p["old"])
        elif fn == "events":
            b = "members %s and partitions %s before, %d events of %s%s%s" % (
                p["prior"], p["old"], p["count"], "/".join(p["kinds"]),
                ", in pairs" if p.get("batch") else "",
                ", one of %s anywhere while starting" % "/".join(p["race"])
                if p.get("race") else "")
        else:
            b = "partitions led by %s, shares %s, a change (%s) before any " \
                "step of a consume call" % (
                    p.get("leaders", (1, 1)), p["shares"], p["kind"])
        out.append({"name": name, "fn": fn, "params": p,
                    "limits": {"samples": 3}, "bound": b})

    seeds = {"t": [0]}
    every = ["member", "partition", "rewrite", "add", "remove"]
    add("any", "events", prior=[], old=None, seeds=seeds, kinds=every,
        count=2)
    add("prior", "events", prior=["a", "z"], old=["u:0"], seeds=seeds,
        kinds=["member", "partition"], count=2, default=True)
    add("batch", "events", prior=["z"], old=["t:0"], seeds=seeds,
        kinds=["member", "partition"], count=2, batch=True)
    add("wide", "events", prior=["m%d" % i for i in range(20)],
        old=["w:%d" % i for i in range(30)], seeds=seeds,
        kinds=["member", "partition"], count=1)
    add("connection", "events", prior=["a"], old=["t:0", "t:1"], seeds=seeds,
        kinds=["suspend", "session", "member", "wipe"], count=2)
    add("race", "events", prior=["a"], old=["t:1"], seeds=seeds,
        kinds=["member"], count=0, race=["member", "partition"])
    add("race-first", "events", prior=[], old=None, seeds=seeds,
        kinds=["member"], count=0, race=["member", "partition"])
    add("late", "late", prior=["a"], old=["t:0"])
    add("late-more", "late", prior=["z", "a"], old=["t:0", "u:1"])
    add("failing", "failing", old=["u:0"], what="ConnectionLoss")
    add("failing-first", "failing", old=None, what="SessionExpiredError")
    add("grow", "midway", shares=[[0], [0, 1]], kind="member")
    add("shrink", "midway", shares=[[0, 1], [0]], kind="partition")
    add("swap", "midway", shares=[[0], [1], []], kind="member")
    add("fresh", "midway", shares=[[0], [0, 1]], kind="member", calls=1,
        at=0)
    add("off", "midway", shares=[[0], [0, 1]], kind="member",
        autocommit=False)
    add("at-once", "midway", shares=[[0]], kind="at-once", calls=0)
    if deep:
        add("any-3", "events", prior=[], old=None, seeds=seeds, kinds=every,
            count=3)
        add("batch-4", "events", prior=["z"], old=["t:0"], seeds=seeds,
            kinds=["member", "partition", "rewrite"], count=4, batch=True)
        add("race-more", "events", prior=["a"], old=["t:1"], seeds=seeds,
            kinds=["member"], count=1,
            race=["member", "partition", "rewrite"])
        add("both", "midway", shares=[[0], [0, 1], []], kind="both")
        add("brokers", "midway", shares=[[0], [1, 0]], kind="member",
            leaders=(1, 2), calls=3)
    return out

"""C16: a grouped consumer resumes from and commits the right offsets."""
from harness import cons, group, ref, sim

REACH = ["resumed", "retried", "lost", "committed", "empty", "unallocated",
         "two-topics", "two-brokers", "asked", "nothing-to-commit",
         "uncommitted", "again", "poison", "all-die",
         "coordinator-dies"]
ASSUMPTIONS = [
    "committed offsets are between 0 and 2**62, and messages are after them",
    "the allocation does not change (C20 changes it)",
    "commits are accepted (C17 rejects them)",
    "the coordinator stays where it is (C18 moves it)"]


def history(ctx, topics, share, rounds, autocommit, codes=0, lost=(),
            order="fifo", poison=False, count=None):
    """topics {name: [leaders]}, share {name: [partitions]}."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    stored, pos = {}, {}
    state = {"codes": 0, "n": 0, "commits": [], "asked": []}
    rows = []

    def on_position(broker, topic, pid):
        p = topic, pid
        ctx.check(broker.id == cl.coordinator, "asked another broker")
        ctx.check(pid in share.get(topic, []), "asked for %s %s" % p)
        state["asked"].append(p)
        if state["codes"] > 0:
            state["codes"] -= 1
            code = ctx.i16("code")
            ctx.assume(group.retriable(ctx, code))
            if ctx.flag("retry"):
                ctx.reach("retried")
                return code, ctx.i64("junk")
        if p not in stored:
            stored[p] = ctx.int("stored", 0, 2 ** 62)
        pos[p] = stored[p]
        return 0, stored[p]

    def on_fetch(broker, topic, pid, offset):
        p = topic, pid
        ctx.check(p in pos, "fetched before its position was known")
        ctx.eq(offset, pos[p], "position of %s %d" % p)
        ctx.reach("resumed")
        k = ctx.pick("count", 2) if count is None else count
        if not k:
            ctx.reach("empty")
            return 0, b""
        o = ctx.int("offset", 0, 2 ** 62)
        ctx.assume(o >= offset)
        state["n"] += 1
        bad = poison and ctx.flag("poison")
        v = (b"\xff%d" if bad else b"v%d") % state["n"]
        if bad:
            ctx.reach("poison")
        else:
            rows.append(v)
            pos[p] = o + 1
        return 0, ref.message_set([(o, None, v)])

    def on_commit(broker, topic, pid, offset, metadata):
        p = topic, pid
        ctx.check(broker.id == cl.coordinator, "committed to another broker")
        ctx.check(pid in share.get(topic, []), "committed %s %s" % p)
        ctx.check(p in pos, "committed %s %s, which is not known" % p)
        ctx.eq(offset, pos[p], "committed position of %s %d" % p)
        ctx.check(metadata is not None, "no metadata")
        state["commits"].append(p)
        stored[p] = offset
        return 0

    def lose(broker, q):
        if q.api == ref.OFFSET_FETCH and lost and ctx.flag("lose"):
            return lost.pop()
        return None

    leaders = set(b for ls in topics.values() for b in ls)
    cl = group.Cluster(net, sorted(leaders | {8, 9}), dict(
        (t, dict(enumerate(ls))) for t, ls in topics.items()), on_fetch, 8)
    cl.on_position, cl.on_commit, cl.lose = on_position, on_commit, lose
    lost = list(lost)

    def deserializer(v):
        if v[:1] in (b"\xff", "\xff"):
            raise cons.Poison("bad message")
        return ref.utf8(v)

    c = group.consumer(ctx, cl, group.fixed(share), autocommit, deserializer)
    group.connect(ctx, net, server, c)
    net.order = order
    consumed = set()
    if len(leaders) > 1:
        ctx.reach("two-brokers")
    state["codes"] = codes
    for rnd in range(rounds):
        t = ctx.choice("topic", sorted(topics))
        mine = [(t, p) for p in share.get(t, [])]
        del rows[:], state["commits"][:], state["asked"][:]
        before = len(net.requests)
        got = net.run(c.consume(t))
        net.settle()
        ctx.check(sorted(got) == sorted(rows), "handed out %r, not %r" % (
            got, rows))
        fetched = sorted((t_, p[0]) for _, t_, p in cons.asked(
            net, ref.FETCH, before))
        ctx.check(fetched == sorted(mine), "fetched %r" % fetched)
        if not mine:
            ctx.reach("unallocated")
            ctx.check(not state["commits"], "committed %r" % state["commits"])
            continue
        if t not in consumed:
            ctx.check(set(state["asked"]) == set(mine), "asked for %r" %
                      state["asked"])
        else:
            ctx.reach("again")
            ctx.check(not state["asked"], "positions were asked for again")
        consumed.add(t)
        settled(ctx, state, mine, consumed, share, autocommit, stored, pos)
        if autocommit:
            ctx.reach("committed")
            continue
        ctx.reach("uncommitted")
        if ctx.flag("commit"):
            net.run(c.commit_offsets())
            net.settle()
            ctx.reach("asked")
            settled(ctx, state, mine, consumed, share, True, stored, pos)
            del state["commits"][:]
            if ctx.flag("again"):
                net.run(c.commit_offsets())
                net.settle()
                ctx.reach("nothing-to-commit")
    if len(consumed) > 1:
        ctx.reach("two-topics")
    ctx.check(not server.errors, "%r" % server.errors)
    ctx.note([len(net.requests)])


def dying(ctx, leaders, kind):
    """Brokers die while the offsets are committed."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    rows, state = [], {"dead": False}

    def on_fetch(broker, topic, pid, offset):
        v = b"v%d" % pid
        rows.append(v)
        return 0, ref.message_set([(offset, None, v)])

    def lose(broker, q):
        if q.api != ref.OFFSET_COMMIT or state["dead"] or \
                not ctx.flag("die"):
            return None
        state["dead"] = True
        if kind == "all":
            ctx.reach("all-die")
            for b in cl.brokers.values():
                b.kill()
        else:
            ctx.reach("coordinator-dies")
            cl.coordinator = 9
            cl.leave(8)
        return "drop"

    parts = list(range(len(leaders)))
    cl = group.Cluster(net, sorted(set(leaders) | {8, 9}),
                       {"t": dict(enumerate(leaders))}, on_fetch, 8)
    stored = dict((p, ctx.int("stored", 0, 2 ** 62)) for p in parts)
    first, commits = dict(stored), []

    def on_commit(broker, topic, pid, offset, metadata):
        ctx.eq(offset, first[pid] + 1, "committed position of %d" % pid)
        commits.append((broker.id, pid))
        return 0

    cl.on_position = lambda broker, topic, pid: (0, stored[pid])
    cl.on_commit, cl.lose = on_commit, lose
    c = group.consumer(ctx, cl, group.fixed({"t": parts}), True, ref.utf8)
    group.connect(ctx, net, server, c)
    got = net.run(c.consume("t"))
    net.settle()
    ctx.check(sorted(got) == sorted(rows), "handed out %r, not %r" % (
        got, rows))
    ctx.check(len(rows) == len(parts), "fetched %d" % len(rows))
    if kind != "all" or not state["dead"]:
        ctx.check(set((cl.coordinator, p) for p in parts) <= set(commits),
                  "committed only %r" % commits)
    ctx.note([len(net.requests)])


def settled(ctx, state, mine, consumed, share, committed, stored, pos):
    done = state["commits"]
    ctx.check(len(done) == len(set(done)), "committed twice: %r" % done)
    if not committed:
        ctx.check(not done, "committed %r unasked" % done)
        return
    ctx.check(set(mine) <= set(done), "committed only %r" % done)
    ctx.check(all(t in consumed for t, _ in done), "committed %r" % done)
    for p in mine:
        ctx.eq(stored[p], pos[p], "stored position of %s %d" % p)


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, **p):
        out.append({"name": name, "fn": "history", "params": p,
                    "limits": {"samples": 3},
                    "bound": "topics led by %s, allocated %s, %d consume "
                             "calls on any of them, up to one message per "
                             "partition and call, automatic commits %s, up "
                             "to %d retriable codes, lost answers %s, %s "
                             "events" % (
                                 p["topics"], p["share"], p["rounds"],
                                 "on" if p["autocommit"] else "off",
                                 p.get("codes", 0),
                                 list(p.get("lost", ())),
                                 p.get("order", "fifo"))})

    add("one", topics={"t": [1]}, share={"t": [0]}, rounds=3,
        autocommit=True, poison=True)
    add("part", topics={"t": [1, 2, 1]}, share={"t": [2, 1]}, rounds=2,
        autocommit=True)
    add("topics", topics={"t": [1], "u": [1]}, share={"t": [0], "u": [0]},
        rounds=3, autocommit=True)
    add("wide", topics={"t": [1, 2] * 12}, share={"t": list(range(24))},
        rounds=2, autocommit=True, count=1)
    add("wide-off", topics={"t": [1] * 24}, share={"t": list(range(3, 22))},
        rounds=1, autocommit=False, count=1)
    add("off", topics={"t": [1, 1]}, share={"t": [0, 1]}, rounds=2,
        autocommit=False)
    add("off-topics", topics={"t": [1], "u": [2, 1]},
        share={"t": [0], "u": [1]}, rounds=2, autocommit=False)
    add("none", topics={"t": [1], "u": [1]}, share={"t": [0]}, rounds=2,
        autocommit=True)
    add("retry", topics={"t": [1, 2]}, share={"t": [0, 1]}, rounds=1,
        autocommit=True, codes=3)
    add("lost", topics={"t": [1]}, share={"t": [0]}, rounds=2,
        autocommit=True, codes=1, lost=cons.DEATHS)
    for kind in ("all", "coordinator"):
        for leaders in ([1], [1, 2, 8]):
            out.append({"name": "dying-%s-%d" % (kind, len(leaders)),
                        "fn": "dying", "limits": {"samples": 3},
                        "params": {"leaders": leaders, "kind": kind},
                        "bound": "partitions led by %s, any stored offsets; "
                                 "brokers dying during the commit: %s" % (
                                     leaders, kind)})
    if deep:
        add("one-6", topics={"t": [1]}, share={"t": [0]}, rounds=6,
            autocommit=True)
        add("topics-any", topics={"t": [1, 2], "u": [2, 1]},
            share={"t": [0, 1], "u": [0]}, rounds=3, autocommit=True,
            order="any")
        add("off-4", topics={"t": [1], "u": [2]},
            share={"t": [0], "u": [0]}, rounds=4, autocommit=False)
        add("retry-6", topics={"t": [1, 2]}, share={"t": [0, 1]}, rounds=2,
            autocommit=True, codes=6, lost=["drop", "garbage"])
    return out

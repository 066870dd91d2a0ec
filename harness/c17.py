"""C17: offset commits are retried until each partition is settled."""
from harness import cons, group, ref, sim

REACH = ["accepted", "retriable", "too-large", "other", "mixed", "moved",
         "lost", "own-metadata", "blank", "two-topics", "later"]
ASSUMPTIONS = [
    "sooner or later every partition is accepted or refused for good",
    "a broker that answers with code 16 names the next coordinator when "
    "asked for it",
    "the allocation does not change in the meantime (C20 changes it)"]


def kind_of(ctx, code):
    if code == 0:
        return "accepted"
    if code == 12:
        return "too-large"
    if code == 16:
        return "moved"
    if group.retriable(ctx, code):
        return "retriable"
    return "other"


def history(ctx, topics, budget, how="auto", lost=(), order="fifo"):
    """topics {name: [leaders]}; budget: how many partition results of
    commits may be any code, all later ones are 0."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    share = dict((t, list(range(len(ls)))) for t, ls in topics.items())
    everything = sorted((t, p) for t in share for p in share[t])
    pos, latest = {}, {}        # latest: how the last commit of each went
    state = {"budget": 0, "rounds": [], "coordinator": 8}
    lost = list(lost)

    def on_position(broker, topic, pid):
        pos[topic, pid] = ctx.int("stored", 0, 2 ** 40)
        return 0, pos[topic, pid]

    def on_fetch(broker, topic, pid, offset):
        o = ctx.int("offset", 0, 2 ** 62)
        ctx.assume(o >= offset)
        pos[topic, pid] = o + 1
        return 0, ref.message_set([(o, None, b"value")])

    def on_commit(broker, topic, pid, offset, metadata):
        p = topic, pid
        ctx.check(broker.id == state["coordinator"],
                  "committed to %d, not to the coordinator" % broker.id)
        ctx.eq(offset, pos[p], "committed position of %s %d" % p)
        code = 0
        if state["budget"] > 0:
            state["budget"] -= 1
            code = ctx.i16("code")
        kind = kind_of(ctx, code)
        ctx.check(p not in state["now"], "committed twice in a request")
        state["now"][p] = (kind, metadata)
        return code

    def lose(broker, q):
        if q.api == ref.OFFSET_COMMIT and lost and ctx.flag("lose"):
            how = lost.pop()
            for p in state["now"]:
                state["now"][p] = ("lost", state["now"][p][1])
            return how
        return None

    def commit(broker, q):
        state["now"] = {}
        out = base(broker, q)
        state["rounds"].append(state["now"])
        if any(k == "moved" for k, _ in state["now"].values()):
            state["coordinator"] = 17 - state["coordinator"]    # 8 or 9
        return out

    leaders = set(b for ls in topics.values() for b in ls)
    cl = group.Cluster(net, sorted(leaders | {8, 9}), dict(
        (t, dict(enumerate(ls))) for t, ls in topics.items()), on_fetch, 8)
    cl.on_position, cl.on_commit, cl.lose = on_position, on_commit, lose
    cl.on_find = lambda broker: (0, state["coordinator"])
    base = cl.commit
    cl.handlers[ref.OFFSET_COMMIT] = commit
    c = group.consumer(ctx, cl, group.fixed(share), how == "auto")
    group.connect(ctx, net, server, c)
    net.order = order
    for i, t in enumerate(sorted(topics)):
        last = i == len(topics) - 1
        if last:
            state["budget"] = budget
        got = net.run(c.consume(t))
        net.settle()
        ctx.check(len(got) == len(share[t]), "handed out %r" % got)
        if last and how == "auto":
            # the positions of earlier topics are committed already
            attempt(ctx, state, sorted((t, p) for p in share[t]),
                    everything, None)
        del state["rounds"][:]
    if how != "auto":
        own = "" if how == "asked" else "my own"
        net.run(c.commit_offsets(*([own] if own else [])))
        net.settle()
        if own:
            ctx.reach("own-metadata")
        attempt(ctx, state, everything, everything, own or None)
    if len(topics) > 1:
        ctx.reach("two-topics")
    left = state["rounds"][-1:] and not all(
        k == "accepted" for k, _ in state["rounds"][-1].values())
    del state["rounds"][:]
    state["budget"] = 0
    del lost[:]
    # whatever is left gets committed along with the next call
    t = sorted(topics)[-1]
    got = net.run(c.consume(t))
    net.settle()
    ctx.check(len(got) == len(share[t]), "handed out %r" % got)
    if how != "auto":
        net.run(c.commit_offsets())
        net.settle()
    ctx.check(len(state["rounds"]) == 1 and set(
        (t, p) for p in share[t]) <= set(state["rounds"][0]),
        "committed %r" % state["rounds"])
    if left:
        ctx.reach("later")
    ctx.check(not server.errors, "%r" % server.errors)
    ctx.note([len(net.requests)])


def attempt(ctx, state, due, allowed, metadata):
    """One attempt: due has to be settled, allowed may be committed too."""
    rounds = state["rounds"]
    ctx.check(len(rounds) > 0, "never committed")
    blank, first = False, None
    for now in rounds:
        ctx.check(set(due) <= set(now), "%r is not committed again, only %r" %
                  (due, sorted(now)))
        ctx.check(set(now) <= set(allowed), "committed %r" % sorted(now))
        metas = set(m for _, m in now.values())
        ctx.check(len(metas) == 1, "metadata %r" % metas)
        meta = metas.pop()
        if blank:
            ctx.reach("blank")
            ctx.check(meta == "", "metadata %r was too large" % meta)
        else:
            first = meta if first is None else first
            ctx.check(meta == first, "metadata changed")
            ctx.check(metadata is None or meta == metadata, "metadata")
            ctx.check(meta != "", "no metadata")
        kinds = dict((p, k) for p, (k, _) in now.items())
        for k in set(kinds.values()):
            if k != "lost":     # lost is noted where it happens
                ctx.reach(k)
        if len(set(kinds.values())) > 1:
            ctx.reach("mixed")
        due = sorted(p for p, k in kinds.items()
                     if k in ("retriable", "moved", "too-large", "lost"))
        if "too-large" in kinds.values():
            blank = True
        if not due:
            ctx.check(now is rounds[-1], "committed again for nothing: %r" %
                      kinds)
    ctx.check(not due, "gave up on %r" % due)


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, **p):
        out.append({"name": name, "fn": "history", "params": p,
                    "limits": {"samples": 3},
                    "bound": "topics led by %s, %s commits, %d partition "
                             "results of any 16-bit code and then code 0, "
                             "lost answers %s, %s events" % (
                                 p["topics"], p.get("how", "auto"),
                                 p["budget"], list(p.get("lost", ())),
                                 p.get("order", "fifo"))})

    add("one", topics={"t": [1]}, budget=3)
    add("two", topics={"t": [1, 1]}, budget=3)
    add("wide", topics={"t": [1, 2] * 10}, budget=1)
    add("asked", topics={"t": [1]}, budget=2, how="asked")
    add("own", topics={"t": [1]}, budget=2, how="own")
    add("topics", topics={"t": [1], "u": [1]}, budget=3, how="asked")
    add("lost", topics={"t": [1]}, budget=1, lost=cons.DEATHS)
    add("lost-two", topics={"t": [1, 2]}, budget=1, lost=["drop"])
    if deep:
        add("one-5", topics={"t": [1]}, budget=5)
        add("two-4", topics={"t": [1, 2]}, budget=4)
        add("three", topics={"t": [1, 1, 1]}, budget=3)
        add("topics-auto", topics={"t": [1], "u": [1, 1]}, budget=3)
        add("lost-any", topics={"t": [1, 2]}, budget=2,
            lost=["drop", "garbage", "cut"], order="any")
    return out

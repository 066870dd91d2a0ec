"""C18: the group coordinator is found as long as some broker knows it."""
from harness import cons, group, ref, sim

REACH = ["first", "later", "retriable", "lost", "refused", "gone", "moved",
         "dead", "sick", "during-positions", "during-commit", "survived",
         "joined", "newcomer"]
ASSUMPTIONS = [
    "sooner or later every broker that can be reached names the coordinator",
    "a broker that died is not reported in cluster metadata any more",
    "the coordinator named is a broker of the cluster"]


def search(ctx, brokers, tries, deaths, codes="any"):
    """Every broker's answers until one names the coordinator."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    ids = list(range(1, brokers + 1))
    state = {"tries": tries, "named": None, "refused": False, "asked": 0}
    deaths = list(deaths)
    used = []

    def on_find(broker):
        ctx.check(state["named"] is None and not state["refused"],
                  "asked again after an answer")
        state["asked"] += 1
        if state["tries"] > 0:
            state["tries"] -= 1
            code = ctx.i16("code") if codes == "any" else ctx.choice(
                "code", codes)
            if code != 0:
                if group.retriable(ctx, code):
                    ctx.reach("retriable")
                else:
                    ctx.reach("refused")
                    state["refused"] = True
                # the rest of such an answer means nothing
                return code, ctx.choice("junk", [None, ids[0]])
        bid = ctx.choice("coordinator", ids)
        state["named"] = bid
        ctx.reach("first" if state["asked"] == 1 else "later")
        return 0, bid

    def lose(broker, q):
        if q.api == ref.GROUP_COORDINATOR and deaths and ctx.flag("lose"):
            state["named"], state["refused"] = None, False
            return deaths.pop()
        return None

    def on_position(broker, topic, pid):
        used.append(broker.id)
        return 0, 5

    def on_commit(broker, topic, pid, offset, metadata):
        used.append(broker.id)
        return 0

    cl = group.Cluster(net, ids, {"t": {0: 1}},
                       lambda *a: (0, b""), None)
    cl.on_find, cl.lose = on_find, lose
    cl.on_position, cl.on_commit = on_position, on_commit
    c = group.consumer(ctx, cl, group.fixed({"t": [0]}))
    group.connect(ctx, net, server, c)
    ctx.check(state["asked"] > 0, "nobody was asked")
    if state["refused"]:
        # it looks for it again when it needs it
        state["refused"], state["tries"] = False, 0
        ctx.check(state["named"] is None, "asked on")
    else:
        ctx.check(state["named"] is not None, "gave up")
    named = state["named"]
    got = net.run(c.consume("t"))
    net.settle()
    ctx.check(got == [], "messages from nowhere")
    ctx.check(named is None or state["named"] == named, "asked again")
    if used:
        ctx.check(set(used) == {state["named"]}, "%r are used instead of %r"
                  % (used, state["named"]))
    if named is not None:
        ctx.check(used == [named] * 2, "not used")
    got = net.run(c.consume("t"))
    net.settle()
    ctx.check(set(used) == {state["named"]} and len(used) >= 2, "not used")
    ctx.note([len(net.requests)])


def late(ctx, known, new, replaced, knowing="late"):
    """Only brokers that join the cluster during the search can name the
    coordinator, or are it; some of the brokers known at first are gone by
    then."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    first = list(range(1, known + 1))
    late = list(range(known + 1, known + new + 1))
    state = {"asked": 0, "named": None}
    after = 1 + ctx.pick("after", known + 1)
    used = []

    def on_find(broker):
        state["asked"] += 1
        ctx.check(state["asked"] < 40, "never asks the brokers that joined")
        if state["asked"] == after:
            cl.reported = first + late
            if replaced:
                for b in first[:replaced]:
                    if b != broker.id:
                        cl.leave(b)
        if knowing == "first" and state["asked"] >= after:
            # it is a broker nobody here has heard of yet
            ctx.reach("newcomer")
            if state["named"] is None:
                state["named"] = ctx.choice("coordinator", late)
            return 0, state["named"]
        if broker.id in first:
            code = 15
            if state["asked"] < 3:
                code = ctx.i16("code")
                ctx.assume(group.retriable(ctx, code))
            ctx.reach("retriable")
            return code, None
        ctx.reach("joined")
        state["named"] = ctx.choice("coordinator", late)
        return 0, state["named"]

    def on_position(broker, topic, pid):
        used.append(broker.id)
        return 0, 5

    cl = group.Cluster(net, first + late, {"t": {0: known}},
                       lambda *a: (0, b""), None)
    cl.reported = list(first)
    cl.bootstrap = cl.bootstrap[:known]
    cl.on_find, cl.on_position = on_find, on_position
    cl.on_commit = lambda broker, *a: used.append(broker.id) or 0
    c = group.consumer(ctx, cl, group.fixed({"t": [0]}))
    group.connect(ctx, net, server, c)
    ctx.check(state["named"] is not None, "gave up")
    got = net.run(c.consume("t"))
    net.settle()
    ctx.check(got == [], "messages from nowhere")
    ctx.check(used == [state["named"]] * 2, "%r are used instead of %r"
              % (used, state["named"]))


def change(ctx, when, how, moves, lost=(), order="fifo"):
    """The coordinator changes, moves times, as its offset requests of one
    kind (when) come in: it may then die, or stay but not be responsible,
    or stay and hang up on them."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    ids = [1, 2, 3, 4]
    state = {"at": ctx.choice("coordinator", ids[1:]), "moves": moves,
             "wrong": 0, "stale": 0}
    gone, pos, stored, sick = set(), {}, {}, set()
    lost = list(lost)

    def on_find(broker):
        if state["stale"] > 0 and ctx.flag("stale"):
            state["stale"] -= 1
            return 15, None
        return 0, state["at"]

    def next_one():
        state["moves"] -= 1
        live = [b for b in ids[1:] if b not in gone and b != state["at"]]
        state["at"] = ctx.choice("next", live)
        ctx.reach("during-" + when)
        state["stale"] = 1

    def change_now(broker, q):
        """-> the answer instead of the proper one, or None"""
        if not moving(q) or state["moves"] <= 0 or not ctx.flag("change"):
            return None
        mode = ctx.choice("how", how)
        if mode == "moved":
            ctx.reach("moved")
            next_one()
            return None     # it answers 16 from now on
        ctx.reach(mode)
        gone.add(broker.id)
        next_one()
        if mode == "sick":      # it hangs up on such requests from now on
            sick.add(broker.id)
            return sim.DROP
        cl.leave(broker.id)
        if mode == "gone":      # it served the request just before
            return None
        return sim.DROP

    def moving(q):
        return q.api == (ref.OFFSET_FETCH if when == "positions"
                         else ref.OFFSET_COMMIT)

    def code_of(broker):
        if broker.id == state["at"]:
            return 0
        state["wrong"] += 1
        return 16

    def on_position(broker, topic, pid):
        code = code_of(broker)
        if code:
            return code, -1
        pos[pid] = stored.setdefault(pid, 7)
        return 0, pos[pid]

    def on_commit(broker, topic, pid, offset, metadata):
        code = code_of(broker)
        if not code:
            ctx.eq(offset, pos[pid], "committed position")
            stored[pid] = offset
        return code

    def on_fetch(broker, topic, pid, offset):
        ctx.check(pid in pos, "fetched before its position was known")
        ctx.eq(offset, pos[pid], "position")
        o = ctx.int("offset", 0, 2 ** 62)
        ctx.assume(o >= offset)
        pos[pid] = o + 1
        return 0, ref.message_set([(o, None, b"value")])

    def wrap(base):
        def handle(broker, q):
            if broker.id in sick:
                state["wrong"] += 1
                ctx.check(state["wrong"] < 10, "asks the same broker over "
                          "and over")
                return sim.DROP
            out = change_now(broker, q)
            return base(broker, q) if out is None else out
        return handle

    cl = group.Cluster(net, ids, {"t": {0: 1, 1: 1}}, on_fetch, None)
    cl.on_find, cl.on_position, cl.on_commit = on_find, on_position, on_commit
    for api in (ref.OFFSET_FETCH, ref.OFFSET_COMMIT):
        cl.handlers[api] = wrap(cl.handlers[api])
    cl.lose = lambda broker, q: lost.pop() if (
        q.api == ref.GROUP_COORDINATOR and state["stale"] and lost and
        ctx.flag("lose")) else None
    c = group.consumer(ctx, cl, group.fixed({"t": [0, 1]}))
    group.connect(ctx, net, server, c)
    net.order = order
    for _ in range(2):
        got = net.run(c.consume("t"))
        net.settle()
        ctx.check(len(got) == 2, "handed out %r" % got)
        ctx.eq([stored[p] for p in (0, 1)], [pos[p] for p in (0, 1)],
               "stored positions")
    ctx.check(state["wrong"] <= 2 * moves,
              "asked brokers that are not coordinators %d times" %
              state["wrong"])
    ctx.reach("survived")
    ctx.note([len(net.requests)])


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn, **p):
        if fn == "search":
            b = "%d brokers, %d answers of any kind, lost answers %s" % (
                p["brokers"], p["tries"], list(p["deaths"]))
        elif fn == "late":
            b = "%d brokers that do not know, %d of them leaving, and %d " \
                "that join after 1 to %d answers%s" % (
                    p["known"], p["replaced"], p["new"], p["known"] + 1,
                    ", one of them named by the others"
                    if p.get("knowing") else "")
        else:
            b = "%d changes of coordinator (%s) among 4 brokers during " \
                "requests for %s, lost answers %s, %s events" % (
                    p["moves"], "/".join(p["how"]), p["when"],
                    list(p.get("lost", ())), p.get("order", "fifo"))
        out.append({"name": name, "fn": fn, "params": p,
                    "limits": {"samples": 3}, "bound": b})

    add("codes", "search", brokers=2, tries=3, deaths=[])
    add("deaths", "search", brokers=3, tries=1, deaths=["drop", "drop"])
    add("ways", "search", brokers=2, tries=0, deaths=cons.DEATHS)
    add("single", "search", brokers=1, tries=2, deaths=[])
    add("late-1", "late", known=1, new=1, replaced=0)
    add("late-2", "late", known=2, new=2, replaced=1)
    add("newcomer", "late", known=1, new=1, replaced=0, knowing="first")
    add("newcomer-2", "late", known=2, new=2, replaced=0, knowing="first")
    for when in ("positions", "commit"):
        add(when, "change", when=when, how=["moved", "dead", "gone", "sick"],
            moves=1)
    add("both", "change", when="commit", how=["moved", "dead"], moves=2)
    add("lost", "change", when="positions", how=["dead"], moves=1,
        lost=["drop"])
    if deep:
        add("late-3", "late", known=3, new=2, replaced=2)
        add("codes-3", "search", brokers=3, tries=4, deaths=["drop"])
        add("deaths-4", "search", brokers=4, tries=1,
            deaths=["drop", "garbage", "cut"])
        for when in ("positions", "commit"):
            add(when + "-2", "change", when=when,
                how=["moved", "dead", "gone", "sick"], moves=2, lost=["garbage"],
                order="any")
    return out

"""C15: a standalone consumer starts exactly where it was told to."""
from harness import cons, ref, sim

REACH = ["beginning", "end", "default", "absolute", "ago", "number",
         "failed", "lost", "negative", "no-offset", "new-partition", "unknown-topic",
         "two-brokers", "other-topic", "moved", "started"]
ASSUMPTIONS = [
    "absolute times lie between 1970 and 2242, times ago reach back to 1970 "
    "at most and 270 years ahead; both count in seconds, as the tests have "
    "it (Kafka's own unit is milliseconds)",
    "a datetime without time zone is UTC, wherever the consumer runs; local "
    "time is any fixed number of seconds off UTC",
    "an offset below 0 is no offset",
    "the clock stands still during a call"]
TOP = 2 ** 33


def want_time(ctx, kind, now):
    """-> (start argument, predicate over the time asked for)"""
    ctx.reach(kind)
    if kind == "beginning":
        return -2, lambda t: t == -2
    if kind == "end":
        return -1, lambda t: t == -1
    if kind == "default":
        return None, lambda t: t == -1
    if kind == "number":
        n = ctx.int("time", 0, 2 ** 62)
        return n, lambda t: t == n
    if kind == "absolute":
        d = ctx.datetime("when", 0, TOP)
        secs, micro = ctx.split(d)
        return d, lambda t: ctx.lor(t == secs, ctx.land(
            t == secs + 1, micro > 0))
    d = ctx.timedelta("ago", -TOP, TOP)
    secs, micro = ctx.split(d)
    ctx.assume(secs < now)
    return d, lambda t: ctx.lor(t == now - secs, ctx.land(
        t == now - secs - 1, micro > 0))


def history(ctx, parts, kinds, fails, rounds, order="fifo", step=None):
    net = sim.Net(ctx)
    now = ctx.int("now", 0, TOP)
    ctx.set_clock(now)
    ctx.set_zone(ctx.int("zone", -12 * 3600, 14 * 3600))
    pos, fetched, asked = {}, [], []
    state = {"fail": {}, "good": None}
    topics = {cons.TOPIC: dict(enumerate(parts)), "other": {0: parts[0]}}

    def on_offset(broker, topic, pid, time):
        p = topic, pid
        ctx.check(topics[topic].get(pid) == broker.id,
                  "asked a broker that does not lead the partition")
        ctx.check(p not in pos, "asked again for a known position")
        ctx.check(state["good"](time), "asked for another time")
        asked.append(p)
        how = state["fail"].get(broker.id)
        if how in ("code", "none", "below"):
            del state["fail"][broker.id]
        if how in ("code", "always"):
            ctx.reach("failed")
            code = ctx.i16("code")
            ctx.assume(code != 0)
            return code, []
        if how == "none":
            ctx.reach("no-offset")
            return 0, []
        if how == "below":
            ctx.reach("negative")
            return 0, [ctx.int("negative", -2 ** 63, -1)]
        else:
            pos[p] = ctx.int("start", 0, 2 ** 63 - 2)
            return 0, [pos[p]]

    def on_fetch(broker, topic, pid, offset):
        p = topic, pid
        ctx.check(p in pos, "fetched from a position nobody answered")
        ctx.eq(offset, pos[p], "start of partition %s %d" % p)
        fetched.append(p)
        return 0, b""

    cl = cons.Cluster(net, sorted(set(parts)) + [9], topics, on_offset,
                      on_fetch)
    cl.fail_fetch = False
    hidden = {}
    if step == "unknown-topic":
        hidden = topics.pop(cons.TOPIC)
    elif step == "new-partition":
        hidden = {len(parts) - 1: topics[cons.TOPIC].pop(len(parts) - 1)}
    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=ref.utf8)
    net.run(consumer.connect())
    net.settle()
    net.order = order
    if step == "unknown-topic":
        ctx.reach(step)
        topics[cons.TOPIC] = hidden
    if step == "moved":
        ctx.reach(step)
        for t in topics:
            for p in topics[t]:
                topics[t][p] = 9
        for b in set(parts):
            cl.brokers[b].kill()
        cl.reported = [9]
    start, state["good"] = want_time(ctx, ctx.choice("kind", kinds), now)

    def call(topic=cons.TOPIC, complete=False):
        del fetched[:], asked[:]
        got = net.run(consumer.consume(topic) if start is None
                      else consumer.consume(topic, start=start))
        net.settle()
        ctx.check(got == [], "messages from nowhere")
        everything = sorted((topic, p) for p in topics[topic])
        if complete:
            ctx.check(sorted(fetched) == everything,
                      "fetched %r although all is well" % fetched)
            ctx.reach("started")
        ctx.check(sorted(fetched) in ([], everything),
                  "fetched only %r" % fetched)
        return fetched

    for rnd in range(rounds):
        for b in sorted(set(parts)):
            how = ctx.choice("fail", ["no"] + list(fails))
            if how in cons.DEATHS:
                cl.failing[b] = how
            elif how != "no":
                state["fail"][b] = how
        call()
        state["fail"].clear()
        cl.failing.clear()
    if step == "moved":
        call()
    call(complete=True)
    before = len(asked)
    call(complete=True)
    ctx.check(not asked, "asked again for known positions")
    if step == "new-partition":
        ctx.reach(step)
        topics[cons.TOPIC].update(hidden)
        net.run(consumer.cluster.heal())
        net.settle()
        call(complete=True)
        ctx.check(asked == [(cons.TOPIC, p) for p in hidden],
                  "asked for %r" % asked)
        call(complete=True)
        ctx.check(not asked, "asked again for known positions")
    if step == "other-topic":
        ctx.reach(step)
        call("other", complete=True)
        ctx.check(asked == [("other", 0)], "asked for %r" % asked)
    if len(set(parts)) > 1:
        ctx.reach("two-brokers")
    ctx.note([len(net.requests), before])


def instances(tier):
    deep = tier == "thorough"
    out = []
    ALL = ["beginning", "end", "default", "absolute", "ago", "number"]

    def add(name, **p):
        p.setdefault("step", None)
        out.append({"name": name, "fn": "history", "params": p,
                    "limits": {"samples": 3},
                    "bound": "partitions led by %s, start %s, the first %d "
                             "calls meet %s on any of the brokers, then "
                             "calls without faults; meanwhile: %s; %s "
                             "events" % (
                                 p["parts"], p["kinds"], p["rounds"],
                                 p["fails"] or "no fault", p["step"],
                                 p.get("order", "fifo"))})

    add("kinds", parts=[1, 2], kinds=ALL, fails=[], rounds=0)
    add("wide", parts=[1, 2] * 12, kinds=["beginning", "absolute"],
        fails=["drop"], rounds=1)
    add("codes", parts=[1, 1], kinds=["end"], fails=["code", "none", "always"],
        rounds=1)
    add("negative", parts=[1, 1], kinds=["end"], fails=["below"], rounds=1)
    add("faults", parts=[1, 2], kinds=["end"],
        fails=["code", "drop", "garbage", "cut"], rounds=1)
    add("absolute", parts=[1], kinds=["absolute"],
        fails=["code", "none"] + cons.DEATHS, rounds=1)
    add("any", parts=[1, 2], kinds=["beginning"], fails=["code"], rounds=1,
        order="any")
    add("moved", parts=[1, 2], kinds=["default"], fails=[], rounds=0,
        step="moved")
    add("unknown", parts=[1, 2], kinds=["end", "beginning"], fails=[],
        rounds=0, step="unknown-topic")
    add("new-partition", parts=[1, 2], kinds=["end"], fails=[], rounds=0,
        step="new-partition")
    add("other-topic", parts=[1, 2], kinds=["number", "ago"],
        fails=["drop"], rounds=1, step="other-topic")
    if deep:
        add("faults-3", parts=[1, 2, 1], kinds=["end"],
            fails=["code", "drop", "garbage", "cut"], rounds=2)
        add("codes-2", parts=[1, 1], kinds=["end"],
            fails=["code", "none", "always"], rounds=2)
        add("any-2", parts=[1, 2], kinds=["beginning"],
            fails=["code", "always"], rounds=1, order="any")
        add("kinds-faults", parts=[1, 2], kinds=ALL,
            fails=["code", "drop"], rounds=1, order="any")
        add("new-faults", parts=[1, 2, 1], kinds=["absolute"],
            fails=["code", "drop"], rounds=1, step="new-partition")
        add("unknown-faults", parts=[1, 2], kinds=["ago"],
            fails=["none", "drop"], rounds=2, step="unknown-topic")
    return out

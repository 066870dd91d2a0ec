"""C14: every broker error code triggers its documented reaction only."""
from harness import cons, group, ref, sim

REACH = ["ok", "retriable", "out-of-range", "other", "mixed",
         "offset-retriable", "offset-other", "two-brokers", "recovered",
         "find", "stored", "commit", "orphaned"]
ASSUMPTIONS = [
    "sooner or later the coordinator answers without a retriable code",
    "a failed partition's answer holds no messages",
    "cluster metadata is consistent whenever it is asked for",
    "offsets are at least 0 and at most 2**62"]


def kind_of(ctx, code):
    """Classifies a symbolic code (forks)."""
    if code == 0:
        return "ok"
    if code == 1:
        return "out-of-range"
    if ctx.lor(*[code == c for c in cons.RETRIABLE]):
        return "retriable"
    return "other"


def fetches(ctx, parts, rounds, order="fifo", one=False):
    """Any code in any partition of a fetch answer."""
    net = sim.Net(ctx)
    pos = {}
    state = {"codes": None, "k": 0, "redetermined": []}
    kinds, values = {}, {}

    def on_offset(broker, topic, pid, time):
        pos[pid] = 1000 * pid if one else ctx.int("start", 0, 2 ** 62)
        state["redetermined"].append(pid)
        return 0, [pos[pid]]

    def on_fetch(broker, topic, pid, offset):
        ctx.check(pid in pos, "fetched before its position was known")
        ctx.eq(offset, pos[pid], "position of partition %d" % pid)
        code = 0
        if state["codes"] == "any" and state["victim"] in (None, pid):
            code = ctx.i16("code")
        kinds[pid] = kind_of(ctx, code)
        ctx.reach(kinds[pid])
        if kinds[pid] != "ok":
            return code, b""
        values[pid] = b"%d:%d" % (pid, len(values))
        o = offset + 5 if one else ctx.int("gap", 0, 2 ** 30) + offset
        pos[pid] = o + 1
        return 0, ref.message_set([(o, None, values[pid])])

    cl = cons.Cluster(net, sorted(set(parts)), {
        cons.TOPIC: dict(enumerate(parts))}, on_offset, on_fetch)
    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=ref.utf8)
    net.run(consumer.connect())
    net.settle()
    net.order = order
    if len(set(parts)) > 1:
        ctx.reach("two-brokers")
    again = None
    for rnd in range(rounds + 1):
        state["codes"] = "any" if rnd < rounds else None
        state["victim"] = ctx.choice("victim", [0, len(parts) - 1]) \
            if one else None
        kinds.clear(), values.clear()
        del state["redetermined"][:]
        asked = cl.metadata_asked
        start = len(net.requests)
        got = net.run(consumer.consume(cons.TOPIC, -2))
        net.settle()
        ctx.check(sorted(kinds) == list(range(len(parts))),
                  "fetched %r" % sorted(kinds))
        done = sorted(state["redetermined"])
        if again is None:
            ctx.check(done == list(range(len(parts))), "start positions")
        else:
            ctx.check(done == again, "positions of %r were determined anew, "
                      "not of %r" % (done, again))
        ctx.check(sorted(got) == sorted(values.values()),
                  "handed out %r, not %r (%r)" % (
                      got, sorted(values.values()), kinds))
        times = cl.metadata_asked - asked
        if "retriable" in kinds.values():
            ctx.check(times == 1, "metadata was refreshed %d times" % times)
        else:
            ctx.check(times == 0, "metadata was refreshed without need (%r)"
                      % kinds)
        again = sorted(p for p, k in kinds.items() if k == "out-of-range")
        if len(set(kinds.values())) > 1:
            ctx.reach("mixed")
    ctx.reach("recovered")
    ctx.note([len(net.requests)])


def positions(ctx, parts, rounds, order="fifo"):
    """Any code in any partition of an offset answer."""
    net = sim.Net(ctx)
    pos, answers = {}, []
    state = {"codes": "any"}
    fetched = []

    def on_offset(broker, topic, pid, time):
        code = ctx.i16("code") if state["codes"] == "any" else 0
        kind = kind_of(ctx, code)
        answers.append((pid, kind))
        if kind != "ok":
            return code, []
        ctx.check(pid not in pos, "position was determined twice")
        pos[pid] = ctx.int("start", 0, 2 ** 62)
        return 0, [pos[pid]]

    def on_fetch(broker, topic, pid, offset):
        ctx.check(pid in pos, "fetched from an unknown position")
        ctx.eq(offset, pos[pid], "position of partition %d" % pid)
        fetched.append(pid)
        return 0, b""

    cl = cons.Cluster(net, sorted(set(parts)), {
        cons.TOPIC: dict(enumerate(parts))}, on_offset, on_fetch)
    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=ref.utf8)
    net.run(consumer.connect())
    net.settle()
    net.order = order
    everything = list(range(len(parts)))
    for rnd in range(rounds + 1):
        state["codes"] = "any" if rnd < rounds else None
        del answers[:], fetched[:]
        asked = cl.metadata_asked
        got = net.run(consumer.consume(cons.TOPIC, -2))
        net.settle()
        ctx.check(got == [], "messages from nowhere")
        kinds = [k for _, k in answers]
        bad = [k for k in kinds if k not in ("ok", "retriable")]
        times = cl.metadata_asked - asked
        if bad:
            ctx.reach("offset-other")
        if "retriable" in kinds:
            ctx.reach("offset-retriable")
            ctx.check(times > 0, "metadata was not refreshed")
        else:
            ctx.check(times == 0, "metadata refreshed without need")
        ctx.check(not fetched or sorted(fetched) == everything,
                  "only %r fetched" % fetched)
    ctx.check(sorted(fetched) == everything, "never recovered")
    ctx.note([len(net.requests)])


def coordinated(ctx, stage, parts, budget):
    """Any code in the coordinator's answers to a grouped consumer: budget
    results of the stage's kind have any code, all later ones none."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    state = {"left": 0, "fetched": []}
    kinds = []

    def code_of(at):
        if at != stage or state["left"] <= 0:
            return 0
        state["left"] -= 1
        code = ctx.i16("code")
        kind = kind_of(ctx, code)
        if code == 14 and stage == "stored":
            kind = "loading"    # asked again, with or without a refresh
        if code == 12 and stage == "commit":
            kind = "too-large"
        kinds.append(kind)
        ctx.reach(stage)
        return code

    def on_find(broker):
        code = code_of("find")
        return (0, 2) if code == 0 else (code, None)

    def on_position(broker, topic, pid):
        code = code_of("stored")
        return code, (10 * pid if code == 0 else -1)

    def on_fetch(broker, topic, pid, offset):
        state["fetched"].append(pid)
        ctx.eq(offset, 10 * pid, "position of partition %d" % pid)
        return 0, ref.message_set([(offset + 1, None, b"%d" % pid)])

    cl = group.Cluster(net, [1, 2], {cons.TOPIC: dict(enumerate(parts))},
                       on_fetch, 2)
    cl.on_find, cl.on_position = on_find, on_position
    cl.on_commit = lambda *a: code_of("commit")
    c = group.consumer(ctx, cl, group.fixed(
        {cons.TOPIC: list(range(len(parts)))}))
    if stage == "find":
        state["left"] = budget
        # start-up itself asks for metadata, once
        asked = 1
        group.connect(ctx, net, server, c)
        if "retriable" not in kinds:
            ctx.check(cl.metadata_asked == asked, "metadata was refreshed "
                      "without need (%r)" % kinds)
        else:
            ctx.check(cl.metadata_asked > asked, "metadata was not refreshed")
    else:
        group.connect(ctx, net, server, c)
        state["left"] = budget
    state["left"] = budget if stage != "find" else 0
    asked = cl.metadata_asked
    found = list(kinds)
    got = net.run(c.consume(cons.TOPIC))
    net.settle()
    times = cl.metadata_asked - asked
    values = sorted(b"%d" % p for p in range(len(parts)))
    ended = stage == "stored" and any(k in (
        "other", "out-of-range") for k in kinds)
    if ended:
        # the call ends, and the next one asks for everything again
        ctx.check(got == [] and not state["fetched"], "started at an unknown "
                  "position")
    else:
        ctx.check(sorted(got) == values, "handed out %r" % got)
    if "retriable" in kinds[len(found):]:
        ctx.check(times > 0 or ended, "metadata was not refreshed")
    elif "loading" not in kinds:
        ctx.check(times == 0, "metadata was refreshed without need (%r)"
                  % kinds)
    ctx.note([len(net.requests)])


def orphaned(ctx, parts, leaves=False):
    """The coordinator resigns at a commit, and nobody names another for a
    while: the commit is given up, not the messages."""
    net = sim.Net(ctx)
    server = group.setup(ctx, net)
    code = ctx.i16("code")
    ctx.assume(code != 0)
    ctx.assume(kind_of(ctx, code) != "retriable")
    state = {"lost": False, "asked": 0}
    position = dict((p, 10 * p) for p in range(len(parts)))
    committed = {}

    def on_find(broker):
        state["asked"] += 1
        if state["asked"] > 50:
            ctx.fail("asks for the coordinator forever")
        return (code, None) if state["lost"] else (
            0, 1 if leaves else 2)

    def on_fetch(broker, topic, pid, offset):
        ctx.eq(offset, position[pid], "position of partition %d" % pid)
        position[pid] += 1
        return 0, ref.message_set([(offset, None, b"%d" % pid)])

    def on_commit(broker, topic, pid, offset, metadata):
        if state["lost"]:
            return 16
        committed[pid] = offset
        return 0

    cl = group.Cluster(net, [1, 2], {cons.TOPIC: dict(enumerate(parts))},
                       on_fetch, 2)
    if leaves:
        cl.coordinator = 2

        def on_find_first(broker):
            cl.on_find = on_find
            return 0, 2
        cl.on_find = on_find_first
    else:
        cl.on_find = on_find
    cl.on_commit = on_commit
    cl.on_position = lambda broker, topic, pid: (0, position[pid])
    c = group.consumer(ctx, cl, group.fixed(
        {cons.TOPIC: list(range(len(parts)))}))
    group.connect(ctx, net, server, c)
    values = sorted(b"%d" % p for p in range(len(parts)))
    for lost in (False, True, True, False):
        if lost and leaves and not state["lost"]:
            cl.leave(2)
            net.settle()
            net.run(c.cluster.heal())
        state["lost"], state["asked"] = lost, 0
        got = net.run(c.consume(cons.TOPIC))
        net.settle()
        ctx.check(sorted(got) == values, "handed out %r" % got)
    ctx.reach("orphaned")
    ctx.check(committed == position, "committed %r" % committed)
    ctx.note([len(net.requests)])


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn, **p):
        out.append({"name": name, "fn": fn, "params": p,
                    "limits": {"samples": 3},
                    "bound": "partitions led by %s, %d calls with any "
                             "16-bit code in every partition and one "
                             "without, %s events" % (
                                 p["parts"], p["rounds"],
                                 p.get("order", "fifo"))})

    def add_group(name, **p):
        out.append({"name": name, "fn": "coordinated", "params": p,
                    "limits": {"samples": 3},
                    "bound": "partitions led by %s, %d results of a grouped "
                             "consumer's %s answers with any 16-bit code" % (
                                 p["parts"], p["budget"], {
                                     "find": "coordinator", "stored":
                                     "offset fetch", "commit":
                                     "offset commit"}[p["stage"]])})

    for stage in ("find", "stored", "commit"):
        add_group("group-" + stage, stage=stage, parts=[1, 1], budget=2)
    add("one", "fetches", parts=[1], rounds=2)
    add("same", "fetches", parts=[1, 1], rounds=1)
    add("two", "fetches", parts=[1, 2], rounds=1, order="any")
    add("three", "fetches", parts=[1, 2, 1], rounds=1)
    add("wide", "fetches", parts=[1, 2] * 10, rounds=1, one=True)
    add("offset-one", "positions", parts=[1], rounds=1)
    add("offset-same", "positions", parts=[1, 1], rounds=1)
    add("offset-two", "positions", parts=[1, 2], rounds=1)
    for parts, leaves in (([1], False), ([1, 2, 1], False), ([1], True),
                          ([1, 2, 1], True)):
        out.append({"name": "group-orphaned-%d%s" % (
                        len(parts), "-left" * leaves),
                    "fn": "orphaned",
                    "params": {"parts": parts, "leaves": leaves},
                    "limits": {"samples": 3},
                    "bound": "partitions led by %s; the coordinator resigns "
                             "and any code that is not retriable is answered "
                             "by whoever is asked for it, for two calls"
                             % parts})
    if deep:
        for stage in ("find", "stored", "commit"):
            add_group("group-%s-4" % stage, stage=stage, parts=[1, 2],
                      budget=4)
        add("one-4", "fetches", parts=[1], rounds=4)
        add("two-2", "fetches", parts=[1, 2], rounds=2)
        add("four", "fetches", parts=[1, 2, 3, 1], rounds=1)
        add("offset-any", "positions", parts=[1, 2], rounds=1, order="any")
        add("offset-three-calls", "positions", parts=[1], rounds=3)
    return out

"""C12: consuming advances exactly past the messages handed out."""
from harness import cons, ref, sim

REACH = ["handed-out", "poison", "poison-last", "empty", "overlap", "plain",
         "gzip", "snappy", "cut", "lost", "two-brokers", "gap", "two-topics",
         "at-once", "same", "outage"]
ASSUMPTIONS = [
    "offsets are at least 0 and at most 2**62, and rise within a partition",
    "an uncompressed answer starts at or after the offset asked for, a "
    "compressed one may start before it but ends after it; its offsets are "
    "small numbers, the position is any",
    "the deserializer returns something that is true, or raises",
    "calls for the same topic do not overlap"]


def history(ctx, parts, counts, shapes, rounds, lost=(), order="fifo",
            poison=True, content=False, topics=1, at_once=False,
            steps=(1, 3), dense=False):
    net = sim.Net(ctx)
    names = ["t%d" % i for i in range(topics)]
    pos = {}
    rows = []           # this round: ((topic, pid), [(offset, value, bad)])
    state = {"n": 0, "off": 7, "counts": counts}

    def on_offset(broker, topic, pid, time):
        pos[topic, pid] = ctx.int("start", 0, 2 ** 62)
        return 0, [pos[topic, pid]]

    def on_fetch(broker, topic, pid, offset):
        p = topic, pid
        ctx.check(p in pos, "fetched before its position was known")
        ctx.eq(offset, pos[p], "position of partition %s %d" % p)
        k = ctx.choice("count", state["counts"])
        shape = ctx.choice("shape", shapes) if k else "plain"
        ctx.reach(shape if k else "empty")
        entries, prev = [], None
        if shape in ("gzip", "snappy") and state["n"]:
            state["off"] -= ctx.choice("back", [0, 2])
        for i in range(k):
            if dense:
                o = offset + i
            elif shape in ("plain", "cut"):
                o = ctx.int("offset", 0, 2 ** 62)
                ctx.assume(o >= offset if prev is None else o > prev)
            else:       # its checksum would cover a symbolic offset
                state["off"] += ctx.choice("step", list(steps))
                o = state["off"]
            prev = o
            bad = poison and ctx.flag("poison")
            state["n"] += 1
            v = (b"\xff" if bad else b"\x00") + b"%d:" % state["n"]
            if content:
                v = v + ctx.bytes("value", 1)
            entries.append((o, v, bad))
        if prev is not None:
            # the last one is new, or there would have been no answer
            ctx.assume(prev >= offset)
        rows.append((p, entries))
        return 0, cons.packed([e[:2] for e in entries], shape)

    # broker 9 leads nothing, but remains when the others fail
    layout = dict(enumerate(parts))
    cl = cons.Cluster(net, sorted(set(parts)) + [9], dict(
        [(t, layout) for t in names] + [("other", {0: parts[0]})]),
        on_offset, on_fetch)

    def deserializer(v):
        v = ref.utf8(v)
        if v[:1] == b"\xff":
            raise cons.Poison("bad message")
        return ("value", v)

    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=deserializer)
    net.run(consumer.connect())
    net.settle()
    net.order = order
    if len(layout) > 1 and len(set(parts)) > 1:
        ctx.reach("two-brokers")
    if topics > 1:
        ctx.reach("two-topics")
    got_all = []

    def fetch(topics, failing=()):
        del rows[:]
        before = len(net.requests)
        futs = [net.go(consumer.consume(t, -2)) for t in topics]
        if len(futs) > 1:
            ctx.reach("at-once")
        gots = [net.run(f) for f in futs]
        net.settle()
        everything = sorted((t, p) for t in topics for p in layout)
        fetched = sorted((t, p[0]) for _, t, p in cons.asked(
            net, ref.FETCH, before))
        ctx.check(fetched == everything, "fetched %r" % fetched)
        ctx.check(sorted(p for p, _ in rows) == [
            (t, p) for t, p in everything if parts[p] not in failing],
            "who answered")
        for t, got in zip(topics, gots):
            handed(t, got)

    def handed(topic, got):
        ctx.check(isinstance(got, list), "not a list")
        want = []
        for p, entries in rows:
            if p[0] != topic:
                continue
            mine = []
            for o, v, bad in entries:
                if o >= pos[p]:             # forks
                    mine.append((o, v, bad))
                else:
                    ctx.reach("overlap")
            good = [e for e in mine if not e[2]]
            if len(good) < len(mine):
                ctx.reach("poison")
                if mine[-1][2]:
                    ctx.reach("poison-last")
            if good:
                ctx.reach("handed-out")
                if good[0][0] > pos[p]:
                    ctx.reach("gap")
                pos[p] = good[-1][0] + 1
            want.append([("value", v) for _, v, _ in good])
        total = sum(len(w) for w in want)
        ctx.check(len(got) == total, "%d messages came, %d handed out" % (
            total, len(got)))
        tags = [bytes(v[1][:v[1].find(b":")]) for v in got]
        for w in want:
            mine = [v[1][:v[1].find(b":")] for v in w]
            idx = []
            for m, v in zip(mine, w):
                ctx.check(m in tags, "message %r was not handed out" % m)
                idx.append(tags.index(m))
                ctx.eq(got[idx[-1]], v, "message")
            ctx.check(idx == sorted(idx), "messages out of order")
        got_all.append(total)

    for rnd in range(rounds):
        if rnd:
            for b in sorted(set(parts)):
                how = ctx.choice("lost", ["no"] + list(lost))
                if how != "no":
                    cl.failing[b] = how
        failing = set(cl.failing)
        if at_once:
            fetch(names)
        else:
            fetch([names[rnd % topics]], failing)
    # one more fetch tells where each partition stands
    state["counts"] = [0]
    for t in names:
        fetch([t])
    ctx.note(got_all)


def outage(ctx, parts, rounds, order="fifo"):
    """All brokers die before or during a call; they are back when the
    application connects again."""
    net = sim.Net(ctx)
    pos, state, came = {}, {"dying": False, "n": 0}, []

    def on_offset(broker, topic, pid, time):
        ctx.check(pid not in pos, "asked for a position it has")
        pos[pid] = ctx.int("start", 0, 2 ** 61)
        return 0, [pos[pid]]

    def on_fetch(broker, topic, pid, offset):
        ctx.check(pid in pos, "fetched before its position was known")
        ctx.eq(offset, pos[pid], "position of partition %d" % pid)
        state["n"] += 1
        v = b"%d" % state["n"]
        came.append((pid, v))
        return 0, ref.message_set([(offset, None, v)])

    def fetch(broker, q):
        if state["dying"] and ctx.flag("die"):
            state["dying"] = False
            ctx.reach("outage")
            for b in cl.brokers.values():
                b.kill()
            return sim.HOLD
        return base(broker, q)

    cl = cons.Cluster(net, sorted(set(parts)), {
        cons.TOPIC: dict(enumerate(parts))}, on_offset, on_fetch)
    base = cl.handlers[ref.FETCH]
    cl.handlers[ref.FETCH] = fetch
    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=ref.utf8)
    net.run(consumer.connect())
    net.settle()
    net.order = order
    for rnd in range(rounds + 1):
        del came[:]
        state["dying"] = rnd < rounds
        if rnd < rounds and ctx.flag("dead"):
            ctx.reach("outage")
            for b in cl.brokers.values():
                b.kill()
        try:
            got = net.run(consumer.consume(cons.TOPIC, -2))
        except ctx.kiel("exc").NoBrokersError:
            got = []
        net.settle()
        known = dict((v, pid) for pid, v in came)
        ctx.check(len(set(got)) == len(got), "handed out twice")
        for v in got:
            ctx.check(v in known, "handed out %r" % v)
            pos[known[v]] = pos[known[v]] + 1
        for b in cl.brokers.values():
            if not b.up:
                b.up = True
        if not any(not s.is_closed for s in net.streams):
            net.run(consumer.connect())
            net.settle()
    ctx.check(len(got) == len(parts), "handed out %r" % got)


def same(ctx, n, shape, rounds=2):
    """Messages are told apart by their offsets, not by what they say."""
    net = sim.Net(ctx)
    vals, sent = [], []

    def on_fetch(broker, topic, pid, offset):
        if len(vals) > n * rounds:
            return 0, b""
        batch = []
        for i in range(n):
            v = ctx.bytes("value", 1)
            batch.append((offset + i, v))
            vals.append(v)
        sent.append(batch)
        return 0, cons.packed(batch, shape)

    cl = cons.Cluster(net, [1], {"t": {0: 1}},
                      lambda *a: (0, [5]), on_fetch)
    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=ref.utf8)
    net.run(consumer.connect())
    for i in range(rounds):
        got = net.run(consumer.consume("t", -2))
        ctx.check(len(sent) == i + 1, "fetches")
        if n > 1:
            ctx.reach("same")
        ctx.check(len(got) == n, "%d messages came, %d handed out" % (
            n, len(got)))
        ctx.eq(got, [v for _, v in sent[-1]], "messages")


TYPES = [7, 2.5, True, {"a": []}, [0], ("x", 1), u"text", b"bytes",
         Exception("a value")]


def types(ctx, n, grouped=False):
    """Whatever the deserializer makes of them is handed out."""
    net = sim.Net(ctx)
    picked = [ctx.pick("type", len(TYPES)) for _ in range(n)]
    sent = []

    def on_fetch(broker, topic, pid, offset):
        sent.append(offset)
        if len(sent) > 1:
            return 0, b""
        return 0, cons.packed([(offset + i, b"%d" % k)
                               for i, k in enumerate(picked)], "plain")

    cl = cons.Cluster(net, [1], {"t": {0: 1}},
                      lambda *a: (0, [5]), on_fetch)
    consumer = ctx.kiel("clients.single").SingleConsumer(
        cl.bootstrap, deserializer=lambda v: TYPES[int(ref.utf8(v))])
    net.run(consumer.connect())
    got = net.run(consumer.consume("t", -2))
    ctx.check(len(got) == n and all(
        a is TYPES[k] for a, k in zip(got, picked)), "handed out %r of %r" % (
            got, picked))
    net.run(consumer.consume("t", -2))
    ctx.check(sent == [5, 5 + n], "fetched from %r" % sent)


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, **p):
        out.append({"name": name, "fn": "history", "params": p,
                    "limits": {"samples": 3},
                    "bound": "%d partitions on brokers %s, %d topics, %d "
                             "calls and one more to look, %s messages per "
                             "answer in form %s with any offsets, lost "
                             "answers %s, %s events" % (
                                 len(p["parts"]), p["parts"],
                                 p.get("topics", 1), p["rounds"],
                                 p["counts"], p["shapes"],
                                 p.get("lost") or "none",
                                 p.get("order", "fifo"))})

    add("one", parts=[1], counts=[0, 2], shapes=["plain", "cut"], rounds=2)
    add("three", parts=[1], counts=[3], shapes=["plain"], rounds=1)
    add("content", parts=[1], counts=[1], shapes=["plain"], rounds=1,
        content=True)
    add("gzip", parts=[1], counts=[1, 2, 3], shapes=["gzip"], rounds=1)
    add("snappy", parts=[1], counts=[1, 2, 3], shapes=["snappy"], rounds=1)
    add("twice", parts=[1], counts=[2], shapes=["gzip", "plain"], rounds=2,
        poison=False)
    add("two", parts=[1, 1], counts=[0, 1, 2], shapes=["plain"], rounds=1)
    add("brokers", parts=[1, 2], counts=[1, 2], shapes=["plain"], rounds=1,
        poison=False, order="any")
    add("long", parts=[1], counts=[110], shapes=["plain"], rounds=1,
        dense=True,
        poison=False)
    add("long-gzip", parts=[1], counts=[120], shapes=["gzip"], rounds=1,
        poison=False, steps=[1])
    add("wide", parts=[1, 2] * 12, counts=[1], dense=True, shapes=["plain"], rounds=1,
        poison=False)
    add("lost", parts=[1, 2], counts=[1], shapes=["plain"], rounds=2,
        poison=False, lost=cons.DEATHS)
    add("topics", parts=[1, 2], counts=[0, 1], shapes=["plain"], rounds=2,
        topics=2, poison=False)
    add("at-once", parts=[1], counts=[1], shapes=["plain"], rounds=2,
        topics=2, at_once=True, order="any", poison=False)
    for name, parts, rounds, order in [("outage", [1], 2, "fifo"),
                                       ("outage-two", [1, 2], 1, "any")]:
        out.append({"name": name, "fn": "outage",
                    "params": {"parts": parts, "rounds": rounds,
                               "order": order},
                    "limits": {"samples": 3},
                    "bound": "partitions on brokers %s, %d calls before or "
                             "in which all brokers may die and one more, "
                             "any positions, %s events" % (
                                 parts, rounds, order)})
    out.append({"name": "same", "fn": "same",
                "params": {"n": 3, "shape": "plain"},
                "limits": {"samples": 3},
                "bound": "2 answers of 3 messages with any values of 1 byte, "
                         "alike or not"})
    out.append({"name": "types", "fn": "types", "params": {"n": 2},
                "limits": {"samples": 3},
                "bound": "2 messages deserialized to any of %d kinds of "
                         "values" % len(TYPES)})
    if deep:
        add("one-deep", parts=[1], counts=[0, 1, 2, 3],
            shapes=["plain", "cut"], rounds=2)
        add("content-deep", parts=[1], counts=[1, 2], shapes=["plain"],
            rounds=2, content=True)
        add("compressed", parts=[1], counts=[1, 2],
            shapes=["gzip", "snappy", "plain"], rounds=2)
        add("four", parts=[1, 2, 1, 2], counts=[0, 1], shapes=["plain"],
            rounds=1)
        add("brokers-2", parts=[1, 2], counts=[1, 2], shapes=["plain"],
            rounds=2, poison=False, order="any")
        add("lost-any", parts=[1, 2, 3], counts=[1], shapes=["plain"],
            rounds=2, poison=False, lost=["drop", "garbage"], order="any")
        add("at-once-2", parts=[1, 2], counts=[1], shapes=["plain"],
            rounds=1, topics=2, at_once=True, order="any")
    return out

"""C07: a response resolves exactly the request it answers."""
from harness import ref, sim, wiregen

REACH = ["out-of-order", "split-answer", "glued-answers",
         "sent-after-answer"]
ASSUMPTIONS = [
    "fewer than 2^31 requests are in flight on one connection",
    "the broker answers every request once"]

MD, PR, FE, OF, OC, OX, GC = 3, 0, 1, 2, 8, 9, 10


def make(ctx, api, i):
    """-> request, response body, check(response)"""
    e, o, p = ctx.i16("e%d" % i), ctx.i64("o%d" % i), ctx.i32("p%d" % i)
    P = lambda m: ctx.kiel("protocol." + m)      # noqa
    if api == MD:
        body = ref.metadata_response(
            [(p, "h", 5)], [(e, "t", [(e, p, p, [p], [])])])

        def check(r):
            ctx.eq((r.brokers[0].broker_id, r.topics[0].error_code,
                    r.topics[0].partitions[0].leader), (p, e, p), "metadata")
        return P("metadata").MetadataRequest(topics=[]), body, check
    name = {PR: "produce", FE: "fetch", OF: "offset", OC: "offset_commit",
            OX: "offset_fetch"}.get(api)
    if api == GC:
        def check(r):
            ctx.eq((r.error_code, r.coordinator_id, r.coordinator_host), (e, p, "h"),
                   "coordinator")
        return P("coordinator").GroupCoordinatorRequest(group="g"), \
            ref.coordinator_response(e, p, "h", 1), check
    m = P(name)
    body = {PR: lambda: ref.produce_response([("t", [(p, e, o)])]),
            FE: lambda: ref.fetch_response([("t", [(p, e, o, b"")])]),
            OF: lambda: ref.offset_response([("t", [(p, e, [o])])]),
            OC: lambda: ref.offset_commit_response([("t", [(p, e)])]),
            OX: lambda: ref.offset_fetch_response(
                [("t", [(p, o, "", e)])])}[api]()
    rq = {PR: lambda: m.ProduceRequest(
        required_acks=1, timeout=1, topics=[]),
        FE: lambda: m.FetchRequest(replica_id=-1, max_wait_time=1,
                                   min_bytes=1, topics=[]),
        OF: lambda: m.OffsetRequest(replica_id=-1, topics=[]),
        OC: lambda: m.OffsetCommitV0Request(group="g", topics=[]),
        OX: lambda: m.OffsetFetchRequest(group_name="g", topics=[])}[api]()

    def check(r):
        x = r.topics[0].partitions[0]
        ctx.eq((r.topics[0].name, x.partition_id, x.error_code), ("t", p, e),
               name)
        if api in (PR, OX):
            ctx.eq(x.offset, o, "offset")
        if api == FE:
            ctx.eq(x.highwater_mark_offset, o, "highwater mark")
        if api == OF:
            ctx.eq(x.offsets, [o], "offsets")
    return rq, body, check


def correlate(ctx, apis, late=0, split="none", seed="any",
              twice=False, free=None):
    """The first len-late requests are sent at once, the rest one per
    answer; answers in any order, cut into chunks in any of several ways."""
    net = sim.Net(ctx)
    held = []

    def handle(broker, q):
        held.append(q)
        return sim.HOLD

    b = sim.Broker(net, 1, "h", 9092, dict((k, handle) for k in ref.BODY))
    rq = ctx.kiel("protocol.request")
    if isinstance(getattr(rq, "last_id", None), int) and seed != "fixed":
        rq.last_id = ctx.int("seed", 0, 2 ** 31 - 1)
    conn = ctx.kiel("connection").Connection("h", 9092)
    net.run(conn.connect())
    net.settle()
    cases, futs, answered = [], [], []

    def send():
        i = len(futs)
        if i and seed == "gaps" and isinstance(
                getattr(rq, "last_id", None), int):
            # any number of ids went to other connections meanwhile
            rq.last_id = ctx.int("gap", 0, 2 ** 31 - 1)
            for h in held:
                ctx.assume(rq.last_id != (h.corr + 2 ** 31 - 1) % 2 ** 31)
        c = make(ctx, apis[i], i)
        cases.append(c)
        futs.append(conn.send(c[0]))
        answered.append(False)
        net.settle()
        ctx.check(len(held) == len(futs), "request not written to the broker")
        ctx.check(ctx.land(held[i].corr >= 0, held[i].corr < 2 ** 31),
                  "correlation id out of range")
        ctx.eq(held[i].api, apis[i], "api of the request")
        for h in held[:i]:
            ctx.check(h.corr != held[i].corr, "correlation id reused")
        if i and seed == "any" and held[i].corr < held[i - 1].corr:
            ctx.reach("wrapped-id")

    def verify():
        net.settle()
        for f, (_, _, check), a in zip(futs, cases, answered):
            ctx.check(f.done() == a, "resolved exactly when answered")
            if a and (free is None or all(answered)):
                check(f.result())

    for _ in range(len(apis) - late):
        send()
    carry, cut_done = b"", split != "cut"
    while not all(answered) or len(futs) < len(apis):
        open_ = [i for i, a in enumerate(answered) if not a]
        if open_:
            if free is None or sum(answered) < free:
                i = open_[ctx.pick("next", len(open_))]
            else:               # the youngest first
                i = open_[-1]
            if i != open_[0]:
                ctx.reach("out-of-order")
            data = sim.answer(held[i].corr, cases[i][1])
            s = net.streams[0]
            if split == "cut" and not cut_done:
                cut_done = True
                # first part now, the rest a moment later
                k = ctx.pick("cut", len(data))
                if k:
                    ctx.reach("split-answer")
                    s.deliver(data[:k])
                    verify()
                s.deliver(data[k:])
                answered[i] = True
                cut_done = twice is False
            elif split == "bytes":
                for j in range(len(data)):
                    s.deliver(data[j:j + 1])
                    net.settle()
                answered[i] = True
            elif split == "glue":
                # held back until everything is answered
                carry = carry + data
                answered[i] = True
                if len(open_) == 1 and len(futs) == len(apis):
                    ctx.reach("glued-answers")
                    s.deliver(carry)
                else:
                    continue
            else:
                s.deliver(data)
                answered[i] = True
            verify()
        if len(futs) < len(apis):
            if any(answered):
                ctx.reach("sent-after-answer")
            send()
    net.settle()
    verify()
    ctx.check(not conn.closing, "connection gave up")
    ctx.check(not net.streams[0].is_closed, "connection closed")
    ctx.note([q.api for q in held])


def instances(tier):
    out = []

    def add(name, bound, **params):
        out.append({"name": name, "fn": "correlate", "params": params,
                    "limits": {"samples": 3}, "bound": bound})

    for i, pair in enumerate([(MD, PR), (FE, OF), (OC, OX), (GC, MD),
                              (PR, PR), (FE, FE)]):
        add("pair-%d" % i, "two requests, any order", apis=pair)
        add("cut-%d" % i, "two requests, the first answer cut at any byte",
            apis=pair, split="cut", seed="fixed")
    add("three", "three requests, any order", apis=[PR, FE, OX])
    for i, pair in enumerate([(PR, PR), (MD, FE), (OC, OX)]):
        add("gaps-%d" % i, "two requests, any order, any ids in between "
            "used by other connections", apis=pair, seed="gaps")
    add("gaps-late", "three requests, any ids in between",
        apis=[PR, PR, PR], late=1, seed="gaps")
    add("glue", "three answers in one read", apis=[GC, OC, FE],
        split="glue")
    add("bytes", "answers byte by byte", apis=[PR, GC], split="bytes")
    add("late", "later requests sent between answers",
        apis=[PR, MD, GC], late=1)
    add("late2", "later requests sent between answers",
        apis=[FE, PR, OF], late=2)
    add("many", "40 requests at once, any one answered first, then the "
        "youngest", apis=[PR, GC] * 20, free=1, seed="fixed")
    add("many-glued", "40 requests at once, all answers in one read",
        apis=[PR, OX] * 20, free=1, split="glue",
        seed="fixed")
    if tier == "thorough":
        add("four", "four requests, any order", apis=[PR, FE, OX, MD])
        add("five", "five requests, any order", apis=[PR, PR, OX, MD, GC])
        add("four-late", "four requests, two later", apis=[PR, FE, OX, MD],
            late=2)
        add("five-glue", "five glued", apis=[PR, FE, OX, MD, OC],
            split="glue")
        add("bytes-4", "four byte by byte", apis=[PR, FE, OX, MD],
            split="bytes")
        for i, pair in enumerate([(MD, PR), (FE, OF), (OC, OX), (GC, MD)]):
            add("cuts-%d" % i, "two requests, each answer cut at any byte",
                apis=pair, split="cut", seed="fixed", twice=True)
        add("cut-3", "three requests, the first answer cut at any byte",
            apis=[PR, OX, GC], split="cut", seed="fixed")
    return out

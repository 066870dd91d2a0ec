"""C25: one broker's failure does not affect answers from the others."""
from harness import c07, ref, sim

REACH = ["answer", "drop", "garbage", "dead", "partial", "write", "all-fine",
         "some-failed", "all-failed", "second-round"]
ASSUMPTIONS = [
    "no broker stays silent on an open connection",
    "while refreshing, the cluster is healthy: every broker accepts new "
    "connections and all of them are reported with working leaders",
    "handlers do not raise",
    "broker ids are not negative"]
MODES = ["answer", "drop", "garbage", "dead", "partial", "write"]


def spread(ctx, n, apis, modes, order, spare=True, handlers="sync",
           rounds=2, one=False):
    net = sim.Net(ctx)
    ids = [7 * k if one else ctx.i32("id")
           for k in range(n + (1 if spare else 0))]
    for i, a in enumerate(ids):
        ctx.assume(a >= 0)
        for b in ids[:i]:
            ctx.assume(a != b)
    view = ref.metadata_response(
        [(b, "h%d" % k, 9000 + k) for k, b in enumerate(ids)],
        [(0, "t", [(0, k, b, [b], [b]) for k, b in enumerate(ids)])])
    asked = []          # when metadata was asked for: handled so far
    handled = []
    state = {"modes": None, "cases": None}

    def metadata(broker, q):
        asked.append(len(handled))
        return view

    def request(broker, q):
        k = broker.k
        mode = state["modes"][k]
        body = state["cases"][k][1]
        state["got"][k] += 1
        if mode == "drop":
            return sim.DROP
        if mode == "garbage":
            return sim.Raw(sim.answer(q.corr, b"\x7f"))
        if mode == "partial":
            good = sim.answer(q.corr, body)
            return sim.Raw(good[:ctx.choice("cut", [3, 8, len(good) - 1])],
                           True)
        return body

    brokers = []
    for k in range(len(ids)):
        b = sim.Broker(net, k, "h%d" % k, 9000 + k, dict(
            [(a, request) for a in ref.BODY] + [(ref.METADATA, metadata)]))
        b.k = k
        brokers.append(b)
    client = ctx.kiel("clients.client")
    gen = __import__("tornado.gen").gen

    class Probe(client.Client):
        pass

    def sync(self, response):
        handled.append(response)
        return ("result", len(handled))

    @gen.coroutine
    def slow(self, response):
        handled.append(response)
        n = len(handled)
        yield gen.moment
        raise gen.Return(("result", n))

    for api in ("produce", "fetch", "offset", "offset_commit",
                "offset_fetch", "group_coordinator"):
        setattr(Probe, "handle_%s_response" % api,
                slow if handlers == "slow" else sync)

    c = Probe(["h0:9000"])
    net.run(c.connect())
    net.settle()
    net.order = order
    for rnd in range(rounds):
        del handled[:], asked[:]
        at = [ctx.choice("at", [0, n // 2, n - 1])] if one else range(n)
        picked = [ctx.choice("mode", modes) if rnd == 0 and k in at
                  else "answer" for k in range(n)]
        cases = [c07.make(ctx, apis[k % len(apis)], 10 * rnd + k)
                 for k in range(n)]
        state["modes"], state["cases"] = picked, cases
        state["got"] = [0] * n
        for k, m in enumerate(picked):
            if m == "dead":
                brokers[k].kill()
                brokers[k].up = True
                if ctx.flag("noticed"):
                    net.settle()
        bad = [("h%d" % k, 9000 + k) for k, m in enumerate(picked)
               if m == "write"]
        net.write_fault = lambda s, d: "closed" if s.address in bad and \
            ref.Reader(d, 4).i16() != ref.METADATA else None
        try:
            res = net.run(c.send(dict((ids[k], cases[k][0])
                                      for k in range(n))))
        except ctx.kiel("exc").NoBrokersError:
            net.settle()
            ctx.reach("all-failed")
            ctx.check(all(s.is_closed for s in net.streams),
                      "gave up although a broker is connected")
            ctx.check("answer" not in picked, "lost the answers that came")
            return
        net.settle()
        net.write_fault = None
        good = [k for k in range(n) if picked[k] == "answer"]
        for m in picked:
            ctx.reach(m)
        ctx.check(len(handled) == len(good), "%d answers, %d handled (%s)"
                  % (len(good), len(handled), picked))
        ctx.check(len(res) == len(good), "results for other brokers (%s)"
                  % picked)
        for k in range(n):
            if picked[k] in ("dead", "write"):
                continue
            ctx.check(state["got"][k] == 1, "a request was sent %d times"
                      % state["got"][k])
        used = []
        for k in good:
            ctx.check(ids[k] in res, "no result under the broker")
            tag, i = res[ids[k]]
            ctx.check(tag == "result", "not what the handler returned")
            used.append(i)
            cases[k][2](handled[i - 1])
        ctx.check(len(set(used)) == len(used), "one answer used twice")
        if len(good) == n:
            ctx.reach("all-fine")
            ctx.check(not asked, "metadata refreshed without need")
        else:
            ctx.reach("some-failed")
            ctx.check(len(asked) == 1, "metadata refreshed %d times (%s)"
                      % (len(asked), picked))
            ctx.check(asked[0] == len(good),
                      "refreshed before all answers were handled")
        if rnd:
            ctx.reach("second-round")
    ctx.note([picked, len(handled)])


def instances(tier):
    deep = tier == "thorough"
    out = []
    PR, FE, OF, OC, OX, GC = 0, 1, 2, 8, 9, 10

    def add(name, **p):
        out.append({"name": name, "fn": "spread", "params": p,
                    "limits": {"samples": 3},
                    "bound": "%d brokers with any distinct ids, each does "
                             "one of %s, events in %s order" % (
                                 p["n"], p["modes"], p["order"])})

    add("one", n=1, apis=[PR], modes=MODES, order="fifo", spare=False)
    add("two", n=2, apis=[PR, GC], modes=MODES, order="fifo")
    add("two-any", n=2, apis=[OF, FE], modes=["answer", "drop", "garbage"],
        order="any")
    add("two-alone", n=2, apis=[OC, OX], modes=["answer", "drop", "dead"],
        order="fifo", spare=False)
    add("three", n=3, apis=[PR, GC], modes=["answer", "drop"], order="any",
        rounds=1)
    add("wide", n=12, apis=[PR, GC], modes=MODES, order="fifo", one=True)
    add("slow", n=2, apis=[PR, FE], modes=["answer", "drop", "write"],
        order="any", handlers="slow")
    if deep:
        add("three-all", n=3, apis=[PR, FE, GC], modes=MODES, order="fifo")
        add("three-any", n=3, apis=[OX, OC], modes=["answer", "drop",
                                                   "garbage"], order="any")
        add("four", n=4, apis=[PR], modes=["answer", "drop"], order="fifo")
    return out

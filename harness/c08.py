"""C08: no caller is left waiting when a broker connection dies."""
from harness import ref, sim
from harness import c07

REACH = ["write-raise", "write-fail", "write-closed", "write-fail-closed",
         "drop-idle", "drop-in-size", "drop-in-correlation", "drop-in-body",
         "garbage-body", "unknown-correlation", "bad-size", "user-close",
         "user-abort", "answered-before"]
ASSUMPTIONS = [
    "an open connection on which the broker simply never answers is not a "
    "failed connection (there are no request timeouts)",
    "the stream reports failures the way tornado's IOStream does: by "
    "StreamClosedError from the call, through its future, or by any other "
    "error of the write"]


def die(ctx, apis, how, done=0, many=False):
    """done requests are answered first, then the connection fails."""
    net = sim.Net(ctx)
    held = []

    def handle(broker, q):
        held.append(q)
        return sim.HOLD

    sim.Broker(net, 1, "h", 9092, dict((k, handle) for k in ref.BODY))
    conn = ctx.kiel("connection").Connection("h", 9092)
    net.run(conn.connect())
    net.settle()
    s = net.streams[0]
    cases = [c07.make(ctx, api, i) for i, api in enumerate(apis)]
    futs = []

    def send(i):
        try:
            f = conn.send(cases[i][0])
        except Exception as e:
            ctx.fail("send() raised %s" % type(e).__name__)
        futs.append(f)

    def failed(f):
        net.settle()
        ctx.check(f.done(), "a request waits forever (%s)" % how)
        ctx.check(f.exception() is not None,
                  "a request that was not answered got a result")

    for i in range(done):
        send(i)
        net.settle()
        s.deliver(sim.answer(held[i].corr, cases[i][1]))
        net.settle()
        ctx.check(futs[i].done(), "answered")
        ctx.reach("answered-before")
    rest = range(done, len(apis))
    if how.startswith("write-"):
        # the fault hits one of the writes
        bad = ctx.choice("bad", [done, len(apis) - 1] if many
                         else list(rest))
        for i in rest:
            if i == bad:
                net.write_fault = lambda st, data: how[6:]
                send(i)
                net.write_fault = None
                if ctx.flag("settle-between"):
                    net.settle()
            else:
                send(i)
                if i < bad and not many and ctx.flag("arrives"):
                    net.settle()
        ctx.reach(how)
    else:
        for i in rest:
            send(i)
        net.settle()
        j = 0
        if rest:
            j = ctx.choice("victim", [done, len(apis) // 2, len(apis) - 1]
                           if many else list(rest))
        body = cases[j][1] if rest else b""
        corr = held[j].corr if rest else 77
        data = sim.answer(corr, body)
        if how == "drop":
            k = ctx.choice("cut", [0, 6, len(data) - 1]) if many else \
                ctx.pick("cut", len(data))
            s.deliver(data[:k])
            if ctx.flag("settle-before-drop"):
                net.settle()
            s.shut()
            ctx.reach("drop-idle" if k == 0 else "drop-in-size" if k < 4
                      else "drop-in-correlation" if k < 8 else
                      "drop-in-body")
        elif how == "garbage":
            # a body too short for any response of that type
            n = ctx.pick("len", ctx.conc(min(5, len(body))))
            junk = ctx.bytes("junk", n)
            if n >= 4:      # not the empty list every answer may carry
                count = ref.Reader(junk).i32()
                ctx.assume(ctx.lor(count > 0, count < -1))
            s.deliver(sim.answer(corr, junk))
            ctx.reach("garbage-body")
        elif how == "lengths":
            # a plausible start, then a count nothing backs
            s.deliver(sim.answer(corr, b"\x7f" + ctx.bytes("junk", 7)))
            ctx.reach("garbage-body")
        elif how == "unknown":
            other = ctx.i32("other")
            for h in held:
                ctx.assume(other != h.corr)
            s.deliver(sim.answer(other, body))
            ctx.reach("unknown-correlation")
        elif how == "size":
            s.deliver(ref.i32(ctx.choice("size", [
                -2 ** 31, -5, -1, 0, 1, 2, 3])) + ref.i32(corr) + body)
            ctx.reach("bad-size")
        elif how == "close":
            conn.close()
            ctx.reach("user-close")
        elif how == "abort":
            conn.abort()
            ctx.reach("user-abort")
    for f, (_, _, check) in zip(futs[:done], cases):
        check(f.result())
    for f in futs[done:]:
        failed(f)
    # afterwards everything fails at once
    for again in (0, 1):
        try:
            f = conn.send(c07.make(ctx, apis[0], 10 + again)[0])
        except Exception as e:
            ctx.fail("send() raised %s" % type(e).__name__)
        failed(f)
    conn.close()
    net.settle()
    ctx.note([how, [f.exception() is None for f in futs]])


def instances(tier):
    out = []
    MD, PR, FE, OF, OC, OX, GC = 3, 0, 1, 2, 8, 9, 10

    def add(name, bound, **params):
        out.append({"name": name, "fn": "die", "params": params,
                    "limits": {"samples": 3}, "bound": bound})

    mixes = [[PR], [FE, GC], [MD, PR, OX]]
    if tier == "thorough":
        mixes += [[OF], [OC, OC], [GC, FE, PR, MD], [PR] * 5, [MD]]
    for how in ("write-raise", "write-fail", "write-closed",
                "write-fail-closed", "drop", "garbage", "lengths",
                "unknown", "size", "close", "abort"):
        for m in mixes:
            if how == "lengths" and not all(a in (MD, PR, FE, OF, OC, OX)
                                            for a in m):
                continue
            for done in range(0, len(m)):
                add("%s-%s-%d" % (how, "".join(map(str, m)), done),
                    "%d requests, %d answered first, then: %s"
                    % (len(m), done, how), apis=m, how=how, done=done)
    for first in (MD, PR, FE, OF, OC, OX, GC):
        for how in ("drop", "abort"):
            add("%s-after-%d" % (how, first), "an answer with any contents, "
                "then a request, then: %s" % how, apis=[first, PR],
                how=how, done=1, many=True)
    for how in ("write-raise", "write-fail-closed", "drop", "garbage",
                "size", "close", "abort"):
        add("%s-many" % how, "30 requests, 2 answered first, then: %s" % how,
            apis=[PR] * 30, how=how, done=2, many=True)
    for how in ("drop", "close", "abort", "size"):
        add("%s-idle" % how, "nothing in flight", apis=[PR], how=how, done=1)
    return out

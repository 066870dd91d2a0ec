"""Simulated brokers seen by a consumer."""
from harness import ref, sim

TOPIC = "t"
RETRIABLE = [2, 3, 5, 6, 7, 14, 15, 16, 19, 20]
DEATHS = ["drop", "garbage", "cut"]


class Poison(ValueError):
    pass


class Cluster(sim.Cluster):
    """Answers offset requests with on_offset(broker, topic, pid, time) -> (code,
    [offsets]) and fetches with on_fetch(broker, topic, pid, offset) -> (code, raw
    message set).  failing: {broker id: how its next answer gets lost}."""

    def __init__(self, net, brokers, topics, on_offset, on_fetch):
        sim.Cluster.__init__(self, net, brokers, topics,
                             {ref.OFFSET: self.offset, ref.FETCH: self.fetch})
        self.on_offset, self.on_fetch = on_offset, on_fetch
        self.failing = {}
        self.fail_fetch = True
        self.metadata_asked = 0
        self.answered = []      # (broker id, api) answers that were sent

    def metadata(self, broker, q):
        self.metadata_asked += 1
        return sim.Cluster.metadata(self, broker, q)

    def lost(self, broker, q, body):
        how = self.failing.pop(broker.id, None)
        if how is None:
            self.answered.append((broker.id, q.api))
            return body
        ctx = self.net.ctx
        ctx.reach("lost")
        if how == "drop":
            return sim.DROP
        if how == "garbage":
            return sim.Raw(sim.answer(q.corr, b"\x7f\x00\x00\x00"))
        good = sim.answer(q.corr, body)
        return sim.Raw(good[:ctx.choice("cut", [2, 9, len(good) - 1])], True)

    def offset(self, broker, q):
        self.net.ctx.check(q.replica == -1, "replica id of an offset request")
        if broker.id in self.failing:
            return self.lost(broker, q, b"\x00\x00\x00\x00")
        return self.lost(broker, q, ref.offset_response([
            (t, [(pid,) + self.on_offset(broker, t, pid, time)
                 for pid, time, most in parts])
            for t, parts in q.topics]))

    def fetch(self, broker, q):
        self.net.ctx.check(q.replica == -1, "replica id of a fetch")
        if broker.id in self.failing and self.fail_fetch:
            return self.lost(broker, q, b"\x00\x00\x00\x00")
        out = []
        for t, parts in q.topics:
            res = []
            for pid, offset, size in parts:
                code, raw = self.on_fetch(broker, t, pid, offset)
                res.append((pid, code, 0, raw))
            out.append((t, res))
        out = ref.fetch_response(out)
        return self.lost(broker, q, out) if self.fail_fetch else out


def asked(net, api, start=0):
    """[(broker id, topic, partition request)] from the start-th request."""
    return [(b, t, p) for b, q in net.requests[start:] if q.api == api
            for t, parts in q.topics for p in parts]


def packed(entries, shape):
    """entries [(offset, value)] as the raw set a broker would send."""
    if not entries:
        return b""
    raw = ref.message_set([(o, None, v) for o, v in entries])
    if shape == "plain":
        return raw
    if shape == "cut":
        extra = ref.entry(0, ref.message(None, b"never complete"))
        return raw + extra[:len(extra) - 3]
    last = entries[-1][0]
    if shape == "gzip":
        return ref.entry(last, ref.message(None, ref.gzip_stored(raw), 1))
    return ref.entry(last, ref.message(None, ref.snappy_framed([raw]), 2))


def subsequence(part, whole, same):
    it = iter(whole)
    return all(any(same(x, y) for y in it) for x in part)

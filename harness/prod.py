"""Simulated brokers that keep what is produced to them."""
import gzip

import snappy

from harness import ref, sim

RETRIABLE = [2, 3, 5, 6, 7, 14, 15, 16, 19, 20]
DEFAULT_RETRIABLE = 6


def unpack(ctx, entries):
    """[(key, value)] of a set as a broker stores it, compressed or not."""
    out = []
    for off, crc_ok, magic, attr, key, value in entries:
        ctx.check(crc_ok, "checksum")
        ctx.check(magic == 0, "magic")
        codec = attr & 3
        if codec == 0:
            out.append((key, value))
            continue
        if codec == 1:
            raw = gzip.decompress(value)
        else:
            ctx.check(codec == 2, "codec")
            ctx.check(value[:8] == b"\x82SNAPPY\x00", "snappy framing")
            r, raw = ref.Reader(value, 16), b""
            while r.left():
                raw = raw + snappy.uncompress(r.take(r.i32()))
        out.extend(unpack(ctx, ref.read_message_set(raw)))
    return out


class Cluster(sim.Cluster):
    """Leaders really lead: others answer 6.  The first `rounds` produce
    requests get an arbitrary outcome among `kinds`."""

    def __init__(self, net, brokers, topics, rounds=0, kinds=("ok",)):
        sim.Cluster.__init__(self, net, brokers, topics,
                             {ref.PRODUCE: self.produce})
        self.left, self.kinds = rounds, list(kinds)
        self.acked = []         # (topic, partition, key, value) per ack
        self.stored = []        # everything a leader accepted
        self.lost_acks = []     # stored, but the answer never left
        self.neutral = []       # refused for good
        self.seen_raw = []      # (broker, request)
        self.dying = False
        self.gone = set()       # topics temporarily unknown

    def metadata(self, broker, q):
        if not self.gone:
            return sim.Cluster.metadata(self, broker, q)
        keep = self.topics
        self.topics = dict((t, p) for t, p in keep.items()
                           if t not in self.gone)
        try:
            if not q.topics:
                q.topics = sorted(keep)
            return sim.Cluster.metadata(self, broker, q)
        finally:
            self.topics = keep

    def produce(self, broker, q):
        ctx = self.net.ctx
        self.seen_raw.append((broker.id, q))
        if self.dying and ctx.flag("die"):
            # all of them at once, with requests under way
            self.dying = False
            ctx.reach("outage")
            for b in self.brokers.values():
                b.kill()
            return sim.HOLD
        kind = "ok"
        if self.left:
            self.left -= 1
            kind = ctx.choice("outcome", self.kinds)
            ctx.reach("outcome-" + kind)
        out, batch = [], []
        for topic, parts in q.topics:
            res = []
            for pid, entries in parts:
                msgs = unpack(ctx, entries)
                rows = [(topic, pid, k, v) for k, v in msgs]
                code = 0
                if self.topics.get(topic, {}).get(pid) != broker.id:
                    code = 6
                elif kind == "code":
                    code = ctx.i16("code")
                    ctx.assume(ctx.lor(*[code == c for c in RETRIABLE]))
                elif kind == "mixed":
                    if ctx.flag("fails"):
                        code = ctx.choice("code", [6, 7])
                elif kind == "fatal":
                    code = ctx.i16("code")
                    ctx.assume(ctx.land(code != 0, *[
                        code != c for c in RETRIABLE]))
                    self.neutral.extend(rows)
                if kind in ("drop", "garbage-before"):
                    pass
                elif code == 0:
                    self.stored.extend(rows)
                    batch.extend(rows)
                res.append((pid, code, 40))
            out.append((topic, res))
        if kind == "drop":
            return sim.DROP
        if kind == "lost-ack":
            self.lost_acks.extend(batch)
            return sim.DROP
        if kind == "garbage":
            self.lost_acks.extend(batch)
            return sim.Raw(sim.answer(q.corr, b"\x7f\x00\x00\x00"))
        if kind == "cut":
            self.lost_acks.extend(batch)
            good = sim.answer(q.corr, ref.produce_response(out))
            return sim.Raw(good[:ctx.choice("cut", [2, 9, len(good) - 1])],
                           True)
        return sim.Raw(
            sim.answer(q.corr, ref.produce_response(out)),
            then=lambda ok: (self.acked if ok else self.lost_acks).extend(
                batch))

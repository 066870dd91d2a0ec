"""C02: serialized requests follow the documented layout."""
from harness import ref, wire, wiregen

REACH = ["bytes-compared"] + ["req-" + r[1] for r in wire.REQUESTS]
ASSUMPTIONS = [
    "the layout of each type is the one its documentation states; the API "
    "version is always 0"]


def request(ctx, i, shape):
    modname, cls, key, fields = wire.REQUESTS[i]
    mod = ctx.kiel("protocol." + modname)
    t = (cls, fields)
    v = wiregen.gen(ctx, t, "q", shape)
    kw = dict((f, wiregen.build(ctx, mod, ft, v[f])) for f, ft in fields)
    rq = ctx.kiel("protocol.request")
    if isinstance(getattr(rq, "last_id", None), int):
        rq.last_id = ctx.int("seed", 0, 2 ** 31 - 1)
    req = getattr(mod, cls)(**kw)
    corr = req.correlation_id
    raw = req.serialize()
    ctx.check(ctx.land(corr >= -2 ** 31, corr < 2 ** 31),
              "correlation id does not fit")
    want = ref.i16(key) + ref.i16(0) + ref.i32(corr) + ref.string("kiel") + \
        wiregen.enc(t, v)
    ctx.reach("bytes-compared")
    ctx.reach("req-" + cls)
    ctx.eq(raw, want, "%s: bytes differ from the layout" % cls)
    other = getattr(mod, cls)(**kw)
    ctx.check(other.correlation_id != corr, "correlation id reused")
    ctx.eq(req.serialize(), raw, "serializing twice differs")
    ctx.note(wiregen.enc(t, v))


def default(ctx, i):
    """Fields left out: arrays are empty, strings null."""
    modname, cls, key, fields = wire.REQUESTS[i]
    mod = ctx.kiel("protocol." + modname)
    if any(not isinstance(ft, list) and ft not in ("str", "bytes")
           for _, ft in fields):
        return
    req = getattr(mod, cls)()
    want = ref.i16(key) + ref.i16(0) + ref.i32(req.correlation_id) + \
        ref.string("kiel")
    for _, ft in fields:
        want = want + (ref.i32(0) if isinstance(ft, list) else
                       ref.nbytes(None) if ft == "bytes" else
                       ref.string(None))
    ctx.eq(req.serialize(), want, "%s: defaults" % cls)


SHAPES = [{"n": 1, "s": 2}, {"n": [2, 1, 3], "s": 1}, {"n": 0, "s": 0},
          {"n": [1, 2], "s": None}, {"n": [9, 1, 1], "s": 1},
          {"n": [1, 9, 2], "s": 3}, {"n": [1, 1, 17], "s": 0}]
DEEP = SHAPES + [{"n": 3, "s": 3}, {"n": [3, 0, 2], "s": 4},
                 {"n": [1, 3], "s": 6}, {"n": 2, "s": None}]


def instances(tier):
    out = []
    for i, r in enumerate(wire.REQUESTS):
        for k, s in enumerate(DEEP if tier == "thorough" else SHAPES):
            out.append({
                "name": "%s-%d" % (r[1], k), "fn": "request",
                "params": {"i": i, "shape": s},
                "limits": {"samples": 1},
                "bound": "%s items per array, texts of %s bytes, all integer "
                         "fields and the id seed arbitrary" % (s["n"],
                                                               s["s"])})
        out.append({"name": r[1] + "-default", "fn": "default",
                    "params": {"i": i}, "bound": "omitted fields"})
    return out

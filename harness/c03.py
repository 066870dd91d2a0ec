"""C03: responses decode to the values they carry."""
from harness import ref, wire, wiregen

REACH = ["resp-" + r[1] for r in wire.RESPONSES]
ASSUMPTIONS = [
    "the layout of each type is the one its documentation states"]


def response(ctx, i, shape):
    modname, cls, fields = wire.RESPONSES[i]
    mod = ctx.kiel("protocol." + modname)
    t = (cls, fields)
    v = wiregen.gen(ctx, t, "r", shape)
    raw = wiregen.enc(t, v)
    ctx.reach("resp-" + cls)
    got = getattr(mod, cls).deserialize(raw)
    wiregen.compare(ctx, t, got, v, cls)
    again = getattr(mod, cls).deserialize(raw)
    ctx.check(got == again, "equal bytes decode to unequal values")
    ctx.note(raw)


SHAPES = [{"n": 1, "s": 2}, {"n": [2, 1], "s": 1}, {"n": 0, "s": 0},
          {"n": [1, 2], "s": None}, {"n": [9, 1, 1], "s": 1},
          {"n": [1, 9, 2], "s": 3}, {"n": [1, 1, 17], "s": 0}]
DEEP = SHAPES + [{"n": 2, "s": 2}, {"n": [3, 1, 2], "s": 3},
                 {"n": [1, 3], "s": 1}]


def instances(tier):
    out = []
    for i, r in enumerate(wire.RESPONSES):
        for k, s in enumerate(DEEP if tier == "thorough" else SHAPES):
            out.append({
                "name": "%s-%d" % (r[1], k), "fn": "response",
                "params": {"i": i, "shape": s}, "limits": {"samples": 1},
                "bound": "%s items per array, strings of %s bytes, all "
                         "integer fields arbitrary" % (s["n"], s["s"])})
    return out

"""Arbitrary values of a layout, their reference bytes and comparisons."""
from harness import ref

INT = {"i8": ref.i8, "i16": ref.i16, "i32": ref.i32, "i64": ref.i64}


class Fixed(object):
    """Values that differ from item to item but are not arbitrary."""

    def number(self, name):
        return sum(i * ord(c) for i, c in enumerate(name, 1)) % 101
    i8 = i16 = i32 = i64 = number

    def text(self, name, n):
        return ("%d" % self.number(name) * n)[:n]

    def bytes(self, name, n):
        return (b"%d\xff" % self.number(name) * n)[:n]


FIXED = Fixed()


def gen(ctx, t, name, shape):
    """shape: {"n": items per array, "s": bytes per string or None}"""
    if isinstance(t, list):
        k = shape["n"] if isinstance(shape["n"], int) else \
            shape["n"][name.count("/") % len(shape["n"])]
        # many items: the first, a middle and the last one are arbitrary
        return [gen(ctx if k <= 4 or i in (0, k // 2, k - 1) else FIXED,
                    t[0], "%s/%d" % (name, i), shape) for i in range(k)]
    if isinstance(t, tuple):
        return dict((f, gen(ctx, ft, name + "." + f, shape))
                    for f, ft in t[1])
    if t in INT:
        return getattr(ctx, t)(name)
    if t == "str":
        if shape["s"] is None:
            return None
        return ctx.text(name, shape["s"])
    if t == "bytes":
        return None if shape["s"] is None else ctx.bytes(name, shape["s"])
    if t == "mset":
        k = shape["n"] if isinstance(shape["n"], int) else 1
        return [(ctx.i64(name + ".off"),
                 None if shape["s"] is None else ctx.bytes(name + ".k", 1),
                 ctx.bytes(name + ".v", 1 + i)) for i in range(k)]
    raise AssertionError(t)


def enc(t, v):
    if isinstance(t, list):
        return ref.array(v, lambda x: enc(t[0], x))
    if isinstance(t, tuple):
        out = b""
        for f, ft in t[1]:
            out = out + enc(ft, v[f])
        return out
    if t in INT:
        return INT[t](v)
    if t == "str":
        return ref.string(v)
    if t == "bytes":
        return ref.nbytes(v)
    return ref.sized(ref.message_set(v))


def build(ctx, mod, t, v):
    """The value as kiel objects."""
    if isinstance(t, list):
        return [build(ctx, mod, t[0], x) for x in v]
    if isinstance(t, tuple):
        return getattr(mod, t[0])(**dict(
            (f, build(ctx, mod, ft, v[f])) for f, ft in t[1]))
    if t == "mset":
        m = ctx.kiel("protocol.messages")
        return m.MessageSet([
            (o, m.Message(magic=0, attributes=0, key=k, value=x))
            for o, k, x in v])
    return v


def compare(ctx, t, got, v, where):
    if isinstance(t, list):
        ctx.eq(len(got), len(v), where + ": number of items")
        for i, (g, x) in enumerate(zip(got, v)):
            compare(ctx, t[0], g, x, "%s[%d]" % (where, i))
    elif isinstance(t, tuple):
        for f, ft in t[1]:
            compare(ctx, ft, getattr(got, f), v[f], where + "." + f)
    elif t in INT:
        ctx.eq(got, v, where)
    elif t == "mset":
        ctx.eq(len(got.messages), len(v), where + ": number of messages")
        for (o, m), (eo, k, x) in zip(got.messages, v):
            ctx.eq(o, eo, where + ": message offset")
            octets(ctx, m.key, k, where + ": key")
            octets(ctx, m.value, x, where + ": value")
    else:
        octets(ctx, got, v, where)


def octets(ctx, got, v, where):
    """Texts and byte strings compare by their bytes; null only with null."""
    if v is None or got is None:
        ctx.check(v is None and got is None, where + ": null")
        return
    ctx.eq(ref.utf8(got), ref.utf8(v), where)

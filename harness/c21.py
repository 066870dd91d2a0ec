"""C21: the shared partition set is updated as an exact set, under lock."""
import json

from harness import sim, zk

REACH = ["added", "removed", "nothing-new", "nothing-there", "some-new",
         "some-there", "emptied", "no-data", "no-items", "raced", "blocked",
         "duplicate", "read-back", "through-allocator"]
ASSUMPTIONS = [
    "ZooKeeper is correct; every member updates the set through this code",
    "items are in the characters Kafka allows for topics, colon and digits",
    "another member's item is none of those being added or removed"]
PATH = "/the/set"


def legal(ctx, b):
    return ctx.lor(ctx.land(b >= 0x30, b <= 0x3a), ctx.land(
        b >= 0x41, b <= 0x5a), ctx.land(b >= 0x61, b <= 0x7a),
        b == 0x2d, b == 0x2e, b == 0x5f)


def item(ctx, name, size):
    raw = ctx.bytes(name, size)
    for i in range(size):
        ctx.assume(legal(ctx, raw[i]))
    return raw.decode("utf-8")


def encode(items, how):
    """As some member or tool may have stored it."""
    if how == "spaced":
        out = b"[ "
        for i, x in enumerate(items):
            out = out + (b" , " if i else b"") + b'"' + x.encode("utf-8") + \
                b'"'
        return out + b" ]"
    out = b"["
    for i, x in enumerate(items):
        out = out + (b"," if i else b"") + b'"' + x.encode("utf-8") + b'"'
    return out + b"]"


def decode(value):
    return set(json.loads(value)) if len(value) else set()


def update(ctx, prior, count, size, op, race=None, how="plain", then=None,
           wide=0):
    """prior items stored before (None: no data yet), count items added or
    removed while another member adds or removes one."""
    server = zk.Server(ctx)
    sim.Net(ctx)
    mod = ctx.kiel("zookeeper.shared_set")
    mine, theirs = [zk.Client("zk"), zk.Client("zk")]
    mine.start(), theirs.start()
    server.drain()
    old = [item(ctx, "old", size) for _ in range(prior or 0)]
    old += ["wide:%d" % i for i in range(wide)]
    if prior is None:
        ctx.reach("no-data")
    else:
        server.create(PATH, encode(old, how), 0, True)
    seen = [[], []]
    sets = [mod.SharedSet(c, PATH, on_change=s.append)
            for c, s in zip((mine, theirs), seen)]
    for s in sets:
        s.start()
    server.drain()
    expected = set(old)
    if len(expected) < len(old):
        ctx.reach("duplicate")
    for s in seen:
        ctx.eq(s[-1], expected, "read at first")
    for step in [op] + ([then] if then else []):
        new = set(item(ctx, "item", size) for _ in range(count))
        other = item(ctx, "other", size) if race else None
        if race:
            for x in new:
                ctx.assume(x != other)
        expected = perform(ctx, server, sets, step, new, race, other,
                           expected)
    server.drain()
    value = server.nodes[PATH].value
    ctx.check(isinstance(value, bytes), "stored %s" % type(value).__name__)
    ctx.eq(decode(value), expected, "stored")
    for s in seen:
        ctx.reach("read-back")
        ctx.eq(s[-1], expected, "read back")
    ctx.check(not server.errors, "%r" % server.errors)


def perform(ctx, server, sets, op, new, race, other, expected):
    left = [1 if race else 0]
    happened = []

    def others():
        fn = sets[1].add_items if race == "add" else sets[1].remove_items
        try:
            fn(set([other]))
        except zk.WouldBlock:
            ctx.reach("blocked")
            return False
        ctx.reach("raced")
        happened.append(1)
        return True

    def before():
        if left[0] and ctx.flag("now"):
            left[0] -= not others()
            left[0] = 0
    have = set(x for x in new if x in expected)
    known = len(have)
    if op == "add":
        ctx.reach("nothing-new" if known == len(new) else
                  "some-new" if known else "added")
    else:
        ctx.reach("nothing-there" if not known else
                  "some-there" if known < len(new) else "removed")
    if not new:
        ctx.reach("no-items")
    writes = len(server.writes)
    server.before = before if race else None
    given = set(new)
    (sets[0].add_items if op == "add" else sets[0].remove_items)(given)
    server.before = None
    ctx.eq(given, new, "the set given")
    if race and not happened:
        others()
    for path, value, locks in server.writes[writes:]:
        ctx.check(path == PATH, "wrote %r" % path)
        ctx.check(any(h is not None for h in locks.values()),
                  "wrote without a lock")
    if not race:
        changes = known < len(new) if op == "add" else known > 0
        ctx.check((len(server.writes) > writes) == changes,
                  "%d writes" % (len(server.writes) - writes))
    ctx.check(not any(server.lock_holder.values()), "keeps a lock")
    if op == "add":
        expected = expected | new
    else:
        expected = expected - new
    if race:
        o = set([other])
        expected = expected | o if race == "add" else expected - o
    if not expected:
        ctx.reach("emptied")
    return expected


def allocator(ctx, topics, prior):
    """The same through the allocator, which names the partitions."""
    from harness import group
    server = zk.Server(ctx)
    net = sim.Net(ctx)
    a = ctx.kiel("zookeeper.allocator").PartitionAllocator(
        ["zk"], group.GROUP, "me", lambda ms, ps: {"me": {"x": list(ps)}})
    if prior:
        server.create(group.PARTITIONS, b'["keep:0"]', 0, True)
    net.run(a.start({}))
    expected = set(["keep:0"]) if prior else set()
    names = [item(ctx, "topic", n) for n in topics]
    ctx.assume(ctx.lnot(names[0] == "keep"))
    for x in names[1:]:
        ctx.assume(ctx.land(x != names[0], x != "keep"))
    ids = [0, 7, 10]
    first = dict((x, ctx.choice("ids", [ids, ids[:1], []])) for x in names)
    a.add_partitions(first)
    for x, ps in first.items():
        expected = expected | set("%s:%d" % (x, p) for p in ps)
    ctx.eq(decode(server.nodes[group.PARTITIONS].value), expected, "added")
    second = dict((x, ctx.choice("gone", [ids[1:], ids, []])) for x in names)
    a.remove_partitions(second)
    for x, ps in second.items():
        expected = expected - set("%s:%d" % (x, p) for p in ps)
    ctx.eq(decode(server.nodes[group.PARTITIONS].value), expected, "removed")
    server.drain()
    ctx.eq(set(a.partitions), expected, "known to the allocator")
    ctx.check(not server.errors, "%r" % server.errors)
    ctx.reach("through-allocator")


def instances(tier):
    deep = tier == "thorough"
    out = []

    def add(name, fn="update", **p):
        if fn == "update":
            b = "%s items of %d characters stored, %d %s%s, another member " \
                "%s one at any point" % (
                    p["prior"], p["size"], p["count"],
                    {"add": "added", "remove": "removed"}[p["op"]],
                    ", then %s" % p["then"] if p.get("then") else "",
                    p["race"] + "s" if p.get("race") else "does not touch")
        else:
            b = "topics with names of %s characters, ids 0, 7 and 10" % (
                p["topics"],)
        out.append({"name": name, "fn": fn, "params": p,
                    "limits": {"samples": 3}, "bound": b})

    add("add", prior=2, count=2, size=2, op="add")
    add("add-first", prior=None, count=2, size=3, op="add", then="remove")
    add("add-none", prior=1, count=0, size=2, op="add", then="remove")
    add("add-wide", prior=1, count=1, size=2, op="add", wide=20)
    add("remove-wide", prior=1, count=1, size=2, op="remove", wide=20)
    add("remove", prior=2, count=2, size=2, op="remove", how="spaced")
    add("remove-first", prior=None, count=1, size=2, op="remove", then="add")
    add("add-race", prior=1, count=1, size=2, op="add", race="add")
    add("add-race-remove", prior=1, count=1, size=2, op="add", race="remove")
    add("remove-race", prior=2, count=1, size=1, op="remove", race="add")
    add("remove-race-remove", prior=2, count=1, size=1, op="remove",
        race="remove")
    add("allocator", "allocator", topics=[1, 2], prior=True)
    add("allocator-first", "allocator", topics=[3], prior=False)
    if deep:
        add("add-3", prior=3, count=2, size=2, op="add", then="remove")
        add("remove-3", prior=3, count=2, size=1, op="remove", then="add")
        add("race-2", prior=2, count=2, size=2, op="add", race="add",
            then="remove")
        add("long", prior=1, count=1, size=8, op="add", then="remove")
    return out

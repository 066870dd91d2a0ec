"""An in-memory ZooKeeper behind kazoo's client interface.

Watches are one-shot and coalesce as kazoo's recipes have it: a change makes
a watcher dirty, its callback later gets the then current state.  Callbacks
run whenever the code under test waits, and between its ZooKeeper requests
and loop steps as the harness decides."""
import copy
import threading

import kazoo.client
from kazoo import exceptions
from kazoo.protocol.states import KazooState

from ksym import miniloop

SERVER = [None]
RealEvent = threading.Event


class Event(RealEvent):
    """A threading.Event whose wait() lets ZooKeeper's thread run."""

    def wait(self, timeout=None):
        s = SERVER[0]
        if s is None:
            return RealEvent.wait(self, timeout)
        while not self.is_set():
            if not s.pump():
                if timeout is not None:
                    break
                s.ctx.fail("waits for an event that never comes")
        return self.is_set()


class Stat(object):
    def __init__(self, node):
        self.ephemeralOwner = node.owner
        self.owner_session_id = node.owner or None
        self.mzxid, self.czxid, self.version = \
            node.mzxid, node.czxid, node.version


class Node(object):
    def __init__(self, value, owner, zxid):
        self.value, self.owner = value, owner
        self.mzxid = self.czxid = zxid
        self.version = 0


class Server(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.nodes = {"/": Node(b"", 0, 0)}
        self.zxid = 0
        self.session = 1000
        self.live = set()
        self.pending = []           # callbacks to run on kazoo's thread
        self.watches = []           # (kind, path, watcher)
        self.lock_holder = {}
        self.before = None          # called before each request
        self.clients = []
        self.reads, self.writes = [], []
        self.busy = False
        self.lazy = False           # watches report later, in any order
        self.errors = []            # raised by callbacks, which kazoo logs
        SERVER[0] = self

    # the tree
    def parent(self, path):
        return path.rsplit("/", 1)[0] or "/"

    def children(self, path):
        p = path.rstrip("/") + "/"
        return sorted(n[len(p):] for n in self.nodes
                      if n != "/" and n.startswith(p) and
                      "/" not in n[len(p):])

    def changed(self, kind, path):
        for w in list(self.watches):
            if w[0] == kind and w[1] == path:
                self.watches.remove(w)
                self.pending.append(w[2])

    def create(self, path, value=b"", owner=0, makepath=False):
        if path in self.nodes:
            raise exceptions.NodeExistsError()
        up = self.parent(path)
        if up not in self.nodes:
            if not makepath:
                raise exceptions.NoNodeError()
            self.create(up, b"", 0, True)
        if self.nodes[up].owner:
            raise exceptions.NoChildrenForEphemeralsError()
        self.zxid += 1
        self.nodes[path] = Node(value, owner, self.zxid)
        self.changed("data", path)
        self.changed("children", up)

    def delete(self, path):
        if path not in self.nodes:
            raise exceptions.NoNodeError()
        if self.children(path):
            raise exceptions.NotEmptyError()
        self.zxid += 1
        del self.nodes[path]
        self.changed("data", path)
        self.changed("children", path)
        self.changed("children", self.parent(path))

    def set(self, path, value):
        if path not in self.nodes:
            raise exceptions.NoNodeError()
        self.zxid += 1
        n = self.nodes[path]
        n.value, n.mzxid, n.version = value, self.zxid, n.version + 1
        self.changed("data", path)

    def expire(self, session):
        self.live.discard(session)
        for p in [p for p, n in self.nodes.items() if n.owner == session]:
            self.delete(p)

    # kazoo's thread
    def pump(self):
        if not self.pending:
            return False
        self.ctx.alive()
        try:
            i = 0
            if self.lazy and len(self.pending) > 1:
                i = self.ctx.pick("callback", len(self.pending))
            self.pending.pop(i)()
        except Exception as e:
            self.errors.append(e)
        self.ctx.alive()
        return True

    def drain(self):
        while self.pump():
            pass


class Transaction(object):
    def __init__(self, client):
        self.client, self.ops = client, []

    def create(self, path, value=b"", acl=None, ephemeral=False,
               sequence=False):
        check_bytes(value)
        self.ops.append(("create", path, value, ephemeral))

    def delete(self, path, version=-1):
        self.ops.append(("delete", path))

    def set_data(self, path, value, version=-1):
        check_bytes(value)
        self.ops.append(("set", path, value))

    def check(self, path, version):
        self.ops.append(("check", path, version))

    def commit(self):
        """All or nothing; failures are returned, not raised."""
        s = self.client.request()
        saved = dict((p, copy.copy(n)) for p, n in s.nodes.items())
        watches, pending = s.watches[:], s.pending[:]
        out = []
        for i, op in enumerate(self.ops):
            try:
                if op[0] == "create":
                    s.create(op[1], op[2],
                             self.client.session if op[3] else 0)
                elif op[0] == "delete":
                    s.delete(op[1])
                elif op[0] == "set":
                    s.set(op[1], op[2])
                elif op[1] not in s.nodes or \
                        s.nodes[op[1]].version != op[2]:
                    raise exceptions.BadVersionError()
                out.append(True)
            except exceptions.ZookeeperError as e:
                s.nodes, s.watches, s.pending = saved, watches, pending
                return [exceptions.RolledBackError()] * i + [e] + \
                    [exceptions.RuntimeInconsistency()] * (
                        len(self.ops) - i - 1)
        return out

    def __enter__(self):
        return self

    def __exit__(self, kind, exc, tb):
        if kind is None:
            self.commit()


def check_bytes(value):
    if not isinstance(value, bytes):
        raise TypeError("Invalid type for 'value' (must be a byte string)")


class WouldBlock(Exception):
    """Another client holds the lock."""


class Lock(object):
    def __init__(self, client, path):
        self.client, self.path = client, path

    def acquire(self, blocking=True, timeout=None):
        s = self.client.request()
        holder = s.lock_holder.get(self.path)
        if holder is not None and holder.client is not self.client:
            raise WouldBlock()
        if holder is not None:
            s.ctx.fail("waits for a lock it holds itself")
        if self.path not in s.nodes:
            s.create(self.path, b"", 0, True)
        s.lock_holder[self.path] = self
        return True

    def release(self):
        s = self.client.server
        if s.lock_holder.get(self.path) is not self:
            s.ctx.fail("released a lock it does not hold")
        s.lock_holder[self.path] = None
        self.client.request()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class Handler(object):
    def __init__(self, server):
        self.server = server

    def spawn(self, fn, *args, **kwargs):
        self.server.pending.append(lambda: fn(*args, **kwargs))


class Client(object):
    """The part of KazooClient a group member can use."""

    def __init__(self, hosts=None, **kwargs):
        self.server = SERVER[0]
        if self.server:
            self.server.clients.append(self)
        self.hosts = hosts
        self.listeners = []
        self.session = None
        self.state = KazooState.LOST
        self.started = self.closed = False
        self.watchers = []
        self.handler = Handler(self.server)

    # session
    def add_listener(self, fn):
        self.listeners.append(fn)

    def remove_listener(self, fn):
        self.listeners.remove(fn)

    def start_async(self):
        self.started = True
        self.server.pending.append(self.up)
        return Event()

    def start(self, timeout=15):
        self.start_async()
        while self.session is None and self.server.pump():
            pass

    def up(self):
        if self.session is None:
            self.server.session += 1
            self.session = self.server.session
            self.server.live.add(self.session)
        self.tell(KazooState.CONNECTED)
        for w in self.watchers:
            w.resume()

    def suspend(self):
        for w in self.watchers:
            w.established = False
        self.tell(KazooState.SUSPENDED)

    def lose(self):
        """The session expires; a new one starts with up()."""
        old, self.session = self.session, None
        self.server.expire(old)
        for w in self.watchers:
            w.established = False
        self.server.watches = [w for w in self.server.watches
                               if w[3] is not self]
        self.tell(KazooState.LOST)

    def tell(self, state):
        self.state = state
        for fn in list(self.listeners):
            fn(state)

    def stop(self):
        if self.session is not None:
            self.server.expire(self.session)
        self.session = None
        self.started = False
        self.state = KazooState.LOST
        self.server.watches = [w for w in self.server.watches
                               if w[3] is not self]

    def close(self):
        self.closed = True

    @property
    def client_id(self):
        return None if self.session is None else (self.session, b"pw")

    @property
    def connected(self):
        return self.state == KazooState.CONNECTED

    # requests
    def request(self):
        s = self.server
        s.ctx.alive()
        if not self.started or self.session is None:
            raise exceptions.ConnectionClosedError()
        if s.before is not None and not s.busy:
            s.busy = True
            try:
                s.before()
            finally:
                s.busy = False
        return s

    def retry(self, fn, *args, **kwargs):
        return fn(*args, **kwargs)

    def ensure_path(self, path, acl=None):
        s = self.request()
        if path not in s.nodes:
            s.create(path, b"", 0, True)
        return True

    def exists(self, path, watch=None):
        s = self.request()
        n = s.nodes.get(path)
        return None if n is None else Stat(n)

    def get(self, path, watch=None):
        s = self.request()
        if path not in s.nodes:
            raise exceptions.NoNodeError()
        s.reads.append((path, dict(s.lock_holder)))
        n = s.nodes[path]
        return n.value, Stat(n)

    def get_children(self, path, watch=None, include_data=False):
        s = self.request()
        if path not in s.nodes:
            raise exceptions.NoNodeError()
        return s.children(path)

    def create(self, path, value=b"", acl=None, ephemeral=False,
               sequence=False, makepath=False):
        check_bytes(value)
        s = self.request()
        s.create(path, value, self.session if ephemeral else 0, makepath)
        return path

    def set(self, path, value, version=-1):
        check_bytes(value)
        s = self.request()
        n = s.nodes.get(path)
        if n is not None and version != -1 and n.version != version:
            raise exceptions.BadVersionError()
        s.set(path, value)
        s.writes.append((path, value, dict(s.lock_holder)))
        return Stat(s.nodes[path])

    def delete(self, path, version=-1, recursive=False):
        s = self.request()
        s.delete(path)
        return True

    def transaction(self):
        return Transaction(self)

    def Lock(self, path, identifier=None):
        return Lock(self, path)

    def ChildrenWatch(self, path, func=None, **kwargs):
        return Watch(self, "children", path, func)

    def DataWatch(self, path, func=None, **kwargs):
        return Watch(self, "data", path, func)


class Watch(object):
    def __init__(self, client, kind, path, func):
        self.client, self.kind, self.path = client, kind, path
        self.established = False
        self.prior = None
        self.version = None
        self.called = self.stopped = False
        self.func = None
        if func is not None:
            self(func)

    def __call__(self, func):
        self.func = func
        self.client.watchers.append(self)
        s = self.client.request()
        if s.lazy:
            s.pending.append(self.run)
        else:
            self.run()
        return func

    def resume(self):
        if not self.established or self.kind == "data":
            self.client.server.pending.append(self.run)

    def run(self):
        s = self.client.server
        if self.stopped or self.client.session is None:
            return
        n = s.nodes.get(self.path)
        if self.kind == "children" and n is None:
            self.stopped = True
            return
        s.watches = [w for w in s.watches if w[2] != self.run]
        s.watches.append((self.kind, self.path, self.run, self.client))
        if self.kind == "children":
            now = s.children(self.path)
            if not self.established:
                self.established = True
                if self.prior is not None and self.prior == now:
                    return
            self.prior = now
            args = (now,)
        else:
            version = None if n is None else n.mzxid
            if self.called and version == self.version:
                return
            self.version, self.called = version, True
            args = (None, None) if n is None else (n.value, Stat(n))
        if self.func(*args) is False:
            self.stopped = True


kazoo.client.KazooClient = Client
threading.Event = Event


def attach(net, server, order="fifo"):
    """Lets ZooKeeper's thread run between the steps of the loop."""
    def pump():
        if server.pending and (order == "fifo" or not net.events or
                               net.ctx.flag("zk")):
            return server.pump()
        return False
    net.loop.idle_hooks.insert(0, pump)

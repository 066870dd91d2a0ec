"""A network of brokers for the code under test, seen through IOStream.

Only the byte stream is simulated: what a broker receives is decoded with the
independent codec in ref.py, and what it sends are bytes."""
import asyncio
import collections

from tornado import iostream
from tornado.concurrent import Future

from harness import ref
from ksym import miniloop

NET = [None]
Closed = iostream.StreamClosedError
DROP = ("drop",)          # handler result: the broker closes the connection
HOLD = ("hold",)          # handler result: no answer (yet)


class Raw(object):
    """Handler result: these bytes as they are, then maybe a close."""

    def __init__(self, data, close=False, then=None):
        self.data, self.close = data, close
        self.then = then        # told whether the client could get it


class FakeStream(object):
    """The part of tornado's IOStream a client can use."""

    def __init__(self, sock, *args, **kwargs):
        sock.close()
        self.net = NET[0]
        self.buf = b""
        self.is_closed = False
        self.remote = None        # the broker side, once connected
        self.want = None          # (bytes wanted, future)
        self.close_cb = None
        self.error = None
        self.inbox = b""          # broker side, not yet framed
        self.connecting = None
        self.net.streams.append(self)

    # client side
    def connect(self, address, *args, **kwargs):
        f = self.connecting = Future()
        self.address = tuple(address)
        self.net.connects.append(self.address)
        if self.address in self.net.connect_fault:
            self.is_closed = True       # nobody keeps the socket
            raise OSError("too many open files")
        self.net.later(self._connected)
        return f

    def _connected(self):
        if self.is_closed:
            return
        b = self.net.hosts.get(self.address)
        mode = "refuse" if b is None else b.accept(self)
        if mode == "refuse":
            self.error = ConnectionRefusedError(111, "refused")
            self.shut()
            return
        if mode == "wait":
            b.waiting.append(self)
            return
        self.remote = b
        f, self.connecting = self.connecting, None
        f.set_result(self)
        if mode == "drop":
            self.net.later(self.shut)

    def write(self, data, *args):
        if self.is_closed:
            raise Closed(real_error=self.error)
        f = Future()
        how = None if self.net.write_fault is None else \
            self.net.write_fault(self, data)
        if how == "raise":
            raise OSError("write failed")
        if how == "fail":
            f.set_exception(OSError("write failed"))
            return f
        if how == "closed":
            self.shut()
            raise Closed(real_error=self.error)
        if how == "fail-closed":
            self.shut()
            f.set_exception(Closed())
            return f
        f.set_result(None)
        self.net.later(self._arrived, data, self.net.stamp())
        return f

    def read_bytes(self, num_bytes, partial=False):
        if self.want is not None:
            raise AssertionError("Already reading")
        f = Future()
        n = self.net.ctx.conc(num_bytes)
        if n > 1 << 30:
            self.shut()
            raise Closed()
        self.want = (n, f, partial)
        self._feed()
        if not f.done() and self.is_closed:
            self.want = None
            raise Closed(real_error=self.error)
        return f

    def _feed(self):
        if self.want is None:
            return
        n, f, partial = self.want
        if len(self.buf) >= n or (partial and len(self.buf)):
            if partial:
                n = min(n, len(self.buf))
            out, self.buf = self.buf[:n], self.buf[n:]
            self.want = None
            f.set_result(out)

    def close(self, exc_info=False):
        self.shut()

    def closed(self):
        return self.is_closed

    def set_close_callback(self, cb):
        self.close_cb = cb

    def set_nodelay(self, value):
        pass

    def reading(self):
        return self.want is not None

    def writing(self):
        return False

    def fileno(self):
        return -1

    def shut(self):
        if self.is_closed:
            return
        self.is_closed = True
        if self.connecting is not None:
            f, self.connecting = self.connecting, None
            f.set_exception(Closed(real_error=self.error))
        if self.want is not None:
            f, self.want = self.want[1], None
            f.set_exception(Closed(real_error=self.error))
        if self.close_cb is not None:
            cb, self.close_cb = self.close_cb, None
            self.net.later(cb)

    # broker side
    def _arrived(self, data, stamp=None):
        if self.is_closed:
            return
        self.inbox = self.inbox + data
        while len(self.inbox) >= 4:
            n = ref.Reader(self.inbox).i32()
            if len(self.inbox) < 4 + n:
                return
            frame, self.inbox = self.inbox[4:4 + n], self.inbox[4 + n:]
            self.net.request(self, frame, stamp)

    def deliver(self, data, then=None):
        if then is not None:
            then(not self.is_closed)
        if not self.is_closed:
            self.buf = self.buf + data
            self._feed()


def answer(corr, body):
    return ref.i32(len(body) + 4) + ref.i32(corr) + body


class Net(object):
    """order: "fifo", or "any" to let every pending event come next, or the id
    of a broker whose answers come when there is nothing else."""

    def __init__(self, ctx, order="fifo"):
        self.ctx = ctx
        self.order = order
        self.loop = miniloop.activate(ctx.alive)
        self.loop.idle_hooks.append(self.pump)
        self.events = collections.deque()
        self.streams = []
        self.hosts = {}
        self.brokers = {}
        self.connects = []
        self.requests = []          # (broker id, decoded request)
        self.write_fault = None
        self.stamp = lambda: None   # noted on each request when written
        self.connect_fault = set()  # addresses whose connect() raises
        NET[0] = self
        iostream.IOStream = FakeStream

    def later(self, fn, *args):
        self.loop.call_soon(fn, *args)

    def event(self, fn, *args):
        self.events.append((fn, args))

    def pump(self):
        if not self.events:
            return False
        i = 0
        if self.order == "any" and len(self.events) > 1:
            i = self.ctx.pick("event", len(self.events))
        elif isinstance(self.order, int):
            i = ([k for k, (fn, _) in enumerate(self.events)
                  if getattr(getattr(fn, "__self__", None), "remote", None)
                  is not self.brokers.get(self.order)] or [0])[0]
        fn, args = self.events[i]
        del self.events[i]
        fn(*args)
        return True

    def request(self, stream, frame, stamp=None):
        b = stream.remote
        try:
            q = ref.read_request(frame)
        except ref.Bad as e:
            self.ctx.fail("broker %s cannot read a request: %s" % (b.id, e))
        self.ctx.check(q.client == "kiel", "client id in the request")
        q.stamp = stamp
        self.requests.append((b.id, q))
        out = b.handle(stream, q)
        if out is DROP:
            self.event(stream.shut)
        elif isinstance(out, Raw):
            self.event(stream.deliver, out.data, out.then)
            if out.close:
                self.event(stream.shut)
        elif out is not HOLD:
            self.event(stream.deliver, answer(q.corr, out))

    def go(self, fut):
        """The future of something under way; starts a coroutine."""
        return self.loop.create_task(fut) if asyncio.iscoroutine(fut) else fut

    def run(self, fut):
        """Runs a future (or coroutine) to its end; hanging is a violation."""
        try:
            r = self.loop.run_until(self.go(fut))
        except miniloop.Stuck as e:
            self.ctx.fail("hangs: %s" % e)
        self.ctx.alive()
        return r

    def settle(self):
        """Runs whatever can run, without waiting for anything."""
        while self.loop.step() or self.pump():
            pass
        self.ctx.alive()

    def seen(self, api, broker=None):
        return [(b, q) for b, q in self.requests
                if q.api == api and (broker is None or b == broker)]


class Broker(object):
    """One listening broker.  handlers: api key -> fn(broker, request)."""

    def __init__(self, net, bid, host, port, handlers):
        self.net, self.id, self.host, self.port = net, bid, host, port
        self.handlers = handlers
        self.up = True
        self.slow = False           # connections wait for release()
        self.waiting = []
        net.hosts[(host, port)] = net.brokers[bid] = self

    def accept(self, stream):
        return "refuse" if not self.up else "wait" if self.slow else "ok"

    def release(self):
        """Lets the connections made so far, and later ones, through."""
        self.slow = False
        waiting, self.waiting = self.waiting, []
        for s in waiting:
            self.net.later(s._connected)

    def handle(self, stream, q):
        h = self.handlers.get(q.api)
        if h is None:
            self.net.ctx.fail("broker %s got an unexpected request of api %s"
                              % (self.id, q.api))
        return h(self, q)

    def kill(self):
        """The broker dies: refuses from now on, drops its connections."""
        self.up = False
        for s in self.net.streams:
            if s.remote is self:
                s.shut()


def real(b):
    """The id by which a broker goes on the wire: one of them has 0."""
    return 0 if b == 1 else b if b < 0 else b + 10


class Cluster(object):
    """A consistent cluster: brokers, topics {name: {partition: leader}}."""

    def __init__(self, net, brokers, topics, handlers=None):
        self.net = net
        self.topics = topics
        self.handlers = {ref.METADATA: self.metadata}
        self.handlers.update(handlers or {})
        self.reported = list(brokers)
        self.brokers = dict(
            (b, Broker(net, b, "host%d" % b, 9000 + b, self.handlers))
            for b in brokers)
        self.bootstrap = ["host%d:%d" % (b, 9000 + b) for b in brokers]

    def metadata(self, broker, q):
        names = q.topics or sorted(self.topics)
        return ref.metadata_response(
            [(real(b), "host%d" % b, 9000 + b) for b in self.reported],
            [(0 if n in self.topics else 3, n, [
                (0, p, real(l), [real(l)], [real(l)])
                for p, l in sorted(self.topics.get(n, {}).items())])
             for n in names])

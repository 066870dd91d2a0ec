"""The interface harnesses use.  Symbolic and concrete (replay) versions."""
import importlib


class Violation(BaseException):
    """A check failed on a concrete run."""


class Mismatch(BaseException):
    """A concrete run did not follow the recorded inputs."""


class BaseCtx(object):
    def __init__(self):
        self.names = {}
        self.dead = None
        self.notes = []
        self.reached = set()

    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def alive(self):
        """Re-raises what ended this run, should library code swallow it."""
        if self.dead is not None:
            raise self.dead

    def kiel(self, name):
        return importlib.import_module("kiel." + name if name else "kiel")

    def reach(self, label):
        self.reached.add(label)

    def i8(self, name):
        return self.int(name, -2 ** 7, 2 ** 7 - 1)

    def i16(self, name):
        return self.int(name, -2 ** 15, 2 ** 15 - 1)

    def i32(self, name):
        return self.int(name, -2 ** 31, 2 ** 31 - 1)

    def i64(self, name):
        return self.int(name, -2 ** 63, 2 ** 63 - 1)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.pick(name, len(options))]

    def pick(self, name, n):
        """A concrete index below n (forks)."""
        return self.conc(self.int(name, 0, n - 1))

    def flag(self, name):
        """A concrete bool (forks)."""
        return self.pick(name, 2) == 1

    def env_index(self, what, n):
        return self.pick(what, n)

    def fail(self, msg):
        self.check(False, msg)

    def perm(self, name, items):
        """An arbitrary permutation (forks)."""
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.pick(name, len(items))))
        return out


class ReplayCtx(BaseCtx):
    symbolic = False

    def die(self, exc):
        self.dead = self.dead or exc
        raise self.dead

    def __init__(self, inputs):
        BaseCtx.__init__(self)
        self.inputs = inputs

    def _get(self, name):
        name = self.uniq(name)
        if name not in self.inputs:
            self.die(Mismatch("no recorded input %s" % name))
        return self.inputs[name]

    def int(self, name, lo, hi):
        v = self._get(name)
        if not lo <= v <= hi:
            self.die(Mismatch("input %s out of range" % name))
        return v

    def bool(self, name):
        return bool(self._get(name))

    def bytes(self, name, n):
        return bytes.fromhex(self._get(name))

    def text(self, name, n):
        return bytes.fromhex(self._get(name)).decode("utf-8")

    def datetime(self, name, lo, hi):
        """Any naive datetime, lo and hi in seconds since 1970."""
        import datetime
        return datetime.datetime(1970, 1, 1) + self.timedelta(name, lo, hi)

    def timedelta(self, name, lo, hi):
        import datetime
        return datetime.timedelta(seconds=self.int(name, lo, hi),
                                  microseconds=self.int(name + "_us", 0,
                                                        999999))

    def split(self, d):
        """(whole seconds, microseconds) of a datetime or timedelta."""
        import datetime
        if isinstance(d, datetime.datetime):
            d = d - datetime.datetime(1970, 1, 1)
        n = d // datetime.timedelta(microseconds=1)
        return n // 1000000, n % 1000000

    def set_clock(self, secs):
        import datetime
        import time
        real_gmtime = time.__dict__.setdefault("_ks_gmtime", time.gmtime)
        real_local = time.__dict__.setdefault("_ks_localtime", time.localtime)
        time.gmtime = lambda s=None: real_gmtime(secs if s is None else s)
        time.localtime = lambda s=None: real_local(secs if s is None else s)
        time.time = lambda: float(secs)
        time.time_ns = lambda: secs * 1000000000
        real = datetime.__dict__.setdefault("_ks_datetime", datetime.datetime)

        class Meta(type):
            def __instancecheck__(cls, o):
                return isinstance(o, real)

        class Clocked(real, metaclass=Meta):
            def __new__(cls, *args, **kw):
                return real(*args, **kw)

            @staticmethod
            def utcnow():
                return real.fromtimestamp(
                    secs, datetime.timezone.utc).replace(tzinfo=None)

            @staticmethod
            def now(tz=None):
                return real.fromtimestamp(secs, tz)

            today = now

        datetime.datetime = Clocked

    def set_zone(self, secs):
        """The local time zone is secs ahead of UTC."""
        import os
        import time
        os.environ["TZ"] = "XXX%s%d:%02d:%02d" % (
            "-" if secs > 0 else "+", abs(secs) // 3600,
            abs(secs) // 60 % 60, abs(secs) % 60)
        time.tzset()

    def conc(self, v):
        return v

    def assume(self, c):
        if not c:
            self.die(Mismatch("assumption violated in replay"))

    def check(self, c, msg):
        if not c:
            self.die(Violation(msg))

    def eq(self, a, b, msg):
        if not same(a, b):
            self.die(Violation("%s: %.300r != %.300r" % (msg, a, b)))

    def same(self, a, b):
        return same(a, b)

    def land(self, *xs):
        return all(xs)

    def lor(self, *xs):
        return any(xs)

    def lnot(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def note(self, v):
        self.notes.append(_plain(v))


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (isinstance(a, list) == isinstance(b, list) and
                len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bytes) != isinstance(b, bytes):
        return False
    return a == b


def _plain(v):
    """JSON form shared by both modes."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return sorted([[_plain(k), _plain(x)] for k, x in v.items()],
                      key=repr)
    if isinstance(v, (set, frozenset)):
        return sorted([_plain(x) for x in v], key=repr)
    return "o:" + type(v).__name__

"""A deterministic single-threaded asyncio loop with a virtual clock.

The real tornado gen/Future/IOLoop code runs on it unchanged.  Quiescence
(nothing ready, no timer) with the awaited future pending means a hang."""
import asyncio
import collections
import contextvars
import heapq
import itertools


class Stuck(Exception):
    """The awaited future can never complete."""


class MiniLoop(asyncio.AbstractEventLoop):
    MAX_STEPS = 20000

    def __init__(self, after=None):
        self._ready = collections.deque()
        self._timers = []
        self._seq = itertools.count()
        self._time = 0.0
        self._after = after
        self.steps = 0
        self.errors = []
        self.idle_hooks = []
        self.before_step = None

    # what asyncio and tornado ask of a loop
    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def time(self):
        return self._time

    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self,
                           context or contextvars.copy_context())
        self._ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self,
                                context or contextvars.copy_context())
        heapq.heappush(self._timers, (when, next(self._seq), h))
        return h

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self._time + max(0, delay), callback, *args,
                            context=context)

    def _timer_handle_cancelled(self, handle):
        pass

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self)

    def call_exception_handler(self, context):
        self.errors.append(context)

    default_exception_handler = call_exception_handler

    def run_in_executor(self, executor, func, *args):
        f = self.create_future()
        try:
            f.set_result(func(*args))
        except Exception as e:
            f.set_exception(e)
        return f

    def stop(self):
        pass

    def close(self):
        pass

    # driving it
    def _run_handle(self, h):
        if h._cancelled:
            return
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Stuck("event loop never becomes quiet")
        try:
            h._context.run(h._callback, *h._args)
        except Exception as e:      # what asyncio does: log and go on
            self.errors.append({"exception": e})
        if self._after is not None:
            self._after()

    def step(self):
        """Runs one handle; False when nothing is ready or timed."""
        if self.before_step is not None:
            self.before_step()
        if not self._ready:
            while self._timers and self._timers[0][2]._cancelled:
                heapq.heappop(self._timers)
            if not self._timers:
                return False
            when, _, h = heapq.heappop(self._timers)
            self._time = max(self._time, when)
            self._ready.append(h)
        self._run_handle(self._ready.popleft())
        return True

    def drain(self):
        """Runs everything ready now (timers excluded)."""
        while self._ready:
            self._run_handle(self._ready.popleft())

    def run_until(self, fut):
        while not fut.done():
            if not self.step():
                for hook in list(self.idle_hooks):
                    if hook():
                        break
                else:
                    raise Stuck("awaited operation never completes")
        return fut.result()


def activate(after=None):
    from tornado import ioloop
    loop = MiniLoop(after)
    ioloop.IOLoop._ioloop_for_asyncio.clear()
    asyncio._set_running_loop(loop)
    ioloop.IOLoop.current()
    loop.drain()
    return loop


def deactivate():
    asyncio._set_running_loop(None)

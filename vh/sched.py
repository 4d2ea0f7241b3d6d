"""An event loop and a clock that are owned by the harness."""
import asyncio
import contextlib
import time

from . import Violation

MS = 1000000


class Loop(asyncio.AbstractEventLoop):
    def __init__(self, clock):
        self.clock = clock
        self.queue = []
        self.errors = []

    def call_soon(self, callback, *args, context=None):
        self.queue.append((0, callback, args))

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        self.queue.append((delay, callback, args))

    def call_at(self, when, callback, *args, context=None):
        self.queue.append((when, callback, args))

    def time(self):
        return self.clock.now / 1e9

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def get_debug(self):
        return False

    def step(self):
        """Runs one callback; returns False if there is nothing to do"""
        if not self.queue:
            return False
        _, callback, args = self.queue.pop(0)
        callback(*args)
        return True


class Clock:
    """Advances with every reading: how far determines when a slice of work ends"""

    def __init__(self, ticks):
        self.ticks = ticks or [1]
        self.now = 10**15
        self.count = 0

    def ns(self):
        self.now += int(self.ticks[self.count % len(self.ticks)] * MS)
        self.count += 1
        return self.now

    def seconds(self):
        return self.ns() / 1e9


@contextlib.contextmanager
def owned(ticks):
    clock = Clock(ticks)
    loop = Loop(clock)
    names = {"perf_counter_ns": clock.ns, "monotonic_ns": clock.ns, "perf_counter": clock.seconds,
             "monotonic": clock.seconds}
    saved = {n: getattr(time, n) for n in names}
    try:
        previous = asyncio.get_event_loop_policy()._local._loop
    except AttributeError:
        previous = None
    running = asyncio._get_running_loop()
    try:
        asyncio.set_event_loop(loop)
        asyncio._set_running_loop(loop)
        for n, f in names.items():
            setattr(time, n, f)
        yield loop
    finally:
        for n, f in saved.items():
            setattr(time, n, f)
        asyncio._set_running_loop(running)
        asyncio.set_event_loop(previous)


def run_until_idle(loop, limit=20000):
    for _ in range(limit):
        if not loop.step():
            return
    raise Violation(f"still working after {limit} callbacks")

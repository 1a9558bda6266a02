"""Virtual time: an asyncio loop whose clock only moves when nothing is runnable.

Must be imported before kasa (and before anything that binds time.time or
time.monotonic by name), because it replaces these two functions.
"""
from __future__ import annotations

import asyncio
import selectors
import time as _time

_real_time = _time.time
_real_monotonic = _time.monotonic

EPOCH = 1_700_000_000.0
MONO0 = 100_000.0


class Hang(BaseException):
    """Nothing is runnable and no timer is pending, or a budget ran out."""


class Clock:
    def __init__(self):
        self.active = False
        self.mono = MONO0
        self.wall_offset = EPOCH - MONO0

    def reset(self):
        self.mono = MONO0
        self.wall_offset = EPOCH - MONO0

    def ms(self):
        return int(round((self.mono - MONO0) * 1000))


CLOCK = Clock()


def _vmono():
    return CLOCK.mono if CLOCK.active else _real_monotonic()


def _vtime():
    return CLOCK.mono + CLOCK.wall_offset if CLOCK.active else _real_time()


_time.monotonic = _vmono
_time.time = _vtime


# Library-boundary hooks, installed before kasa is imported so that both
# "asyncio.open_connection" and "from asyncio import open_connection" see them.
HOOKS = {}
_real_open_connection = asyncio.open_connection


def _open_connection(*a, **k):
    h = HOOKS.get("open_connection")
    return h(*a, **k) if h else _real_open_connection(*a, **k)


asyncio.open_connection = _open_connection


class _VSelector:
    def __init__(self, loop_limits):
        self._s = selectors.DefaultSelector()
        self._limits = loop_limits
        self.iterations = 0

    def __getattr__(self, n):
        return getattr(self._s, n)

    def select(self, timeout=None):
        self.iterations += 1
        if self.iterations > self._limits["iterations"]:
            raise Hang("iteration budget")
        ev = self._s.select(0)
        if ev:
            return ev
        if timeout is None:
            raise Hang("deadlock")
        if timeout > 0:
            CLOCK.mono += timeout
            if CLOCK.mono - MONO0 > self._limits["vtime"]:
                raise Hang("virtual time budget")
        return ev


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, limits):
        self.vsel = _VSelector(limits)
        super().__init__(self.vsel)
        self._clock_resolution = 1e-9

    def time(self):
        return CLOCK.mono

    async def create_datagram_endpoint(self, factory, *a, **k):
        h = HOOKS.get("datagram")
        if h is None:
            raise OSError("no network")
        return await h(self, factory, *a, **k)

    async def getaddrinfo(self, host, *a, **k):
        h = HOOKS.get("getaddrinfo")
        if h is None:
            return await super().getaddrinfo(host, *a, **k)
        return h(host)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as ex:  # noqa: BLE001
            fut.set_exception(ex)
        return fut


def run(coro_fn, *, vtime=40 * 86400.0, iterations=400_000, keep_clock=False):
    """Run coro_fn() on a fresh virtual loop; returns its result. Raises Hang."""
    if not keep_clock:
        CLOCK.reset()
    CLOCK.active = True
    loop = VLoop({"vtime": vtime, "iterations": iterations})
    loop.errors = []
    loop.set_exception_handler(lambda l, ctx: loop.errors.append(ctx))
    asyncio.set_event_loop(loop)
    try:
        main = loop.create_task(coro_fn())
        try:
            return loop.run_until_complete(main)
        finally:
            loop.vsel._limits = {"vtime": CLOCK.mono - MONO0 + 10 * 86400.0,
                                 "iterations": loop.vsel.iterations + 20000}
            try:
                for _ in range(5):
                    pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
                    if not pend:
                        break
                    for t in pend:
                        t.cancel()
                    loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
            except BaseException:  # noqa: BLE001
                pass
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except BaseException:  # noqa: BLE001
                pass
    finally:
        asyncio.set_event_loop(None)
        loop.close()
        CLOCK.active = False


def now_ms():
    return CLOCK.ms()

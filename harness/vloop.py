"""A deterministic asyncio loop with virtual time and idle detection."""
from __future__ import annotations

import asyncio
import selectors


class Deadlock(Exception):
    pass


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        ev = super().select(0)
        if ev:
            return ev
        lp = self.loop
        if timeout == 0:
            return []
        # nothing is ready
        if lp.idle_waiters:
            kind, fut = lp.idle_waiters[0]
            if kind == "ready" or timeout is None or lp.advanced >= 50_000:
                lp.idle_waiters.pop(0)
                if not fut.done():
                    fut.set_result(None)
                return []
        if timeout is None:
            raise Deadlock("event loop is idle but the program has not finished")
        lp.vtime += timeout
        lp.advanced += 1
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vtime = 1000.0
        self.advanced = 0
        self.idle_waiters = []
        sel = _Selector()
        sel.loop = self
        super().__init__(sel)
        self._clock_resolution = 1e-9
        self.exceptions = []
        self.set_exception_handler(lambda lp, ctx: self.exceptions.append(ctx))

    def time(self):
        return self.vtime

    def run_in_executor(self, executor, func, *args):
        """Threads have no place in virtual time: the call is made at once."""
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as e:
            fut.set_exception(e)
        return fut

    async def settle(self, advance=True):
        """Wait until nothing is runnable (and, with advance, no timer is pending)."""
        fut = self.create_future()
        self.idle_waiters.append(("all" if advance else "ready", fut))
        await fut


def run(coro_fn, *args):
    """Run an async function to completion on a fresh virtual loop; always cleans up."""
    loop = VLoop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro_fn(loop, *args))
    finally:
        try:
            for _ in range(3):
                pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
                if not pending:
                    break
                for t in pending:
                    t.cancel()

                async def reap():
                    await asyncio.wait(pending, timeout=5)

                try:
                    loop.run_until_complete(reap())
                except (Deadlock, RuntimeError):
                    break
        finally:
            asyncio.set_event_loop(None)
            loop.close()

"""An event loop that the contracts drive step by step (used by the verifier and, with the real asyncio futures and tasks, natively)."""
import asyncio
from threading import get_ident

from pv.lang import UserError, assume, symbolic


class Loop:
    def __init__(self):
        self.ready = []
        self.threads = [get_ident()]

    def call_soon(self, f, *args, context=None):
        if get_ident() not in self.threads:
            raise RuntimeError("Non-thread-safe operation invoked on an event loop other than the current one")
        self.ready.append((f, args))

    def call_soon_threadsafe(self, f, *args, context=None):
        self.ready.append((f, args))

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self)

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def call_exception_handler(self, context):
        pass

    def turn(self):
        """runs one callback"""
        f, args = self.ready.pop(0)
        f(*args)

    def idle(self):
        """runs callbacks until none is left"""
        while self.ready:
            self.turn()


def session(f, *a, kind=Loop):
    """runs f(loop, ...) inside an event loop"""
    l = kind()
    asyncio._set_running_loop(l)
    try:
        return f(l, *a)
    finally:
        asyncio._set_running_loop(None)


async def wait(x):
    return await x


def advance(co):
    """one step of a waiting coroutine"""
    try:
        r = co.send(None)
        r._asyncio_future_blocking = False  # what a task does with the future it waits for
        return ("waiting",)
    except StopIteration as e:
        return ("value", e.value)
    except UserError as e:
        return ("error", e.n)
    except asyncio.CancelledError:
        return ("cancelled",)


def woken(fut):
    pass


def inside(loop, f):
    """f as a thread of its own that the loop runs in"""
    def run():
        old = asyncio._get_running_loop()
        asyncio._set_running_loop(loop)
        loop.threads = loop.threads + [get_ident()]
        try:
            f()
        finally:
            asyncio._set_running_loop(old)
    return run


class Waiter:
    """someone who awaits co"""

    def __init__(self, co, wake=True):
        self.co, self.fut, self.wake = co, None, wake

    def step(self):
        if self.fut is not None and not self.fut.done():
            return ("waiting",)
        try:
            self.fut = self.co.send(None)
            self.fut._asyncio_future_blocking = False
            if self.wake:
                self.fut.add_done_callback(woken)
            return ("waiting",)
        except StopIteration as e:
            return ("value", e.value)
        except UserError as e:
            return ("error", e.n)
        except asyncio.CancelledError:
            return ("cancelled",)


class AnyLoop(Loop):
    """In the verifier: a loop that runs the callbacks in any order.  It counts the equal callbacks scheduled from
    elsewhere instead of listing them, so that histories of any length can be followed."""

    def __init__(self):
        Loop.__init__(self)
        self.f, self.n = None, 0

    def call_soon_threadsafe(self, f, *args, context=None):
        if symbolic() and not args and (self.n == 0 or f == self.f):
            self.f = f
            self.n += 1
        else:
            self.ready.append((f, args))

    def some(self, counted):
        """a callback of either kind, if there is one"""
        if counted:
            if self.n > 0:
                self.n -= 1
                self.f()
        elif self.ready:
            self.turn()

    def settle(self):
        """when there is nothing left to run"""
        if symbolic():
            assume(self.n == 0 and not self.ready)
        else:
            self.idle()

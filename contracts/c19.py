"""C19: continuations, replies and the asynchronous helpers."""
import asyncio
import gc
import weakref

from contracts.loop import advance, session, wait
from contracts.util import Suspend
from expression.core import aiotools
from expression.core.aiotools import from_continuations
from expression.core.mailbox import MailboxProcessor
from expression.system import CancellationTokenSource, OperationCanceledError
from pv.lang import Any, Bool, ConstT, FunT, NoneT, UserError, ask, choose, contract, emit, fresh

P = "C19"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


# ---- from_continuations
def play(done, error, cancel):
    """any sequence of calls of the continuations"""
    while True:
        k = choose(4)
        if k == 0:
            emit("done", done(fresh(Any)))
        elif k == 1:
            emit("error", error(UserError(fresh(Any))))
        elif k == 2:
            emit("cancel", cancel(OperationCanceledError("x")))
        else:
            return None


def s_play(r):
    """the first outcome"""
    while True:
        k = choose(4)
        if k == 0:
            v = fresh(Any)
            if r[0] == "waiting":
                r = ("value", v)
            emit("done", None)
        elif k == 1:
            v = fresh(Any)
            if r[0] == "waiting":
                r = ("error", v)
            emit("error", None)
        elif k == 2:
            if r[0] == "waiting":
                r = ("cancelled",)
            emit("cancel", None)
        else:
            return r


def code_inside(loop):
    """continuations called by the callback, before anyone waits"""
    def cb(done, error, cancel):
        emit("callback")
        play(done, error, cancel)
    fut = from_continuations(cb)
    return advance(wait(fut)), advance(wait(fut))


def spec_inside():
    emit("callback")
    r = s_play(("waiting",))
    return r, r


c("from_continuations: called by the callback", dict(), lambda: session(code_inside), spec_inside)


def code_later(loop):
    """continuations called after the callback returned, and after the caller started to wait"""
    ks = []
    fut = from_continuations(lambda done, error, cancel: ks.append((done, error, cancel)))
    early = ask()
    co = wait(fut)
    if early:
        emit("waits", advance(co))
    play(*ks[0])
    r = advance(wait(fut))
    if early and r[0] == "waiting":
        return r
    return advance(co)


def spec_later():
    if ask():
        emit("waits", ("waiting",))
    return s_play(("waiting",))


c("from_continuations: called later", dict(), lambda: session(code_later), spec_later)


def code_split(loop):
    """some calls by the callback, some later"""
    ks = []

    def cb(done, error, cancel):
        ks.append((done, error, cancel))
        play(done, error, cancel)
    fut = from_continuations(cb)
    emit("then", advance(wait(fut)))
    play(*ks[0])
    return advance(wait(fut))


def spec_split():
    r = s_play(("waiting",))
    emit("then", r)
    return s_play(r)


c("from_continuations: called by the callback and later", dict(), lambda: session(code_split), spec_split)


def spec_raising(f, v, k):
    f()
    return ("value", v) if k else ("waiting",)


def code_raising(loop, f, v, k):
    def cb(done, error, cancel):
        f()
        if k:
            done(v)
    return advance(wait(from_continuations(cb)))


c("from_continuations: callback that raises", dict(f=FunT(NoneT()), v=Any, k=Bool), lambda f, v, k: session(code_raising, f, v, k), spec_raising)


def code_two(loop):
    """two computations do not disturb each other"""
    ks = []
    a = from_continuations(lambda d, e, x: ks.append(d))
    b = from_continuations(lambda d, e, x: ks.append(d))
    ks[0](fresh(Any))
    ks[1](fresh(Any))
    return advance(wait(a)), advance(wait(b))


def spec_two():
    x = fresh(Any)
    return ("value", x), ("value", fresh(Any))


c("from_continuations: two computations", dict(), lambda: session(code_two), spec_two)


# ---- post_and_async_reply
def replies(ch):
    while ask():
        emit("reply", ch.reply(fresh(Any)))


def s_replies(r):
    while ask():
        v = fresh(Any)
        if r[0] == "waiting":
            r = ("value", v)
        emit("reply", None)
    return r


def code_reply(loop, msg):
    """any number of replies, before and after the caller starts to wait"""
    box = MailboxProcessor(None)
    chs = []

    def build(ch):
        emit("build")
        chs.append(ch)
        return msg
    fut = box.post_and_async_reply(build)
    emit("received", advance(box.receive()))
    early = ask()
    co = wait(fut)
    if early:
        emit("waits", advance(co))
    replies(chs[0])
    r = advance(wait(fut))
    emit("reply seen", r)
    replies(chs[0])
    emit("no second message", advance(box.receive()))
    if early and r[0] == "waiting":
        return advance(wait(fut))
    return advance(co)


def spec_reply(msg):
    emit("build")
    emit("received", ("value", msg))
    if ask():
        emit("waits", ("waiting",))
    r = s_replies(("waiting",))
    emit("reply seen", r)
    r = s_replies(r)
    emit("no second message", ("waiting",))
    return r


c("post_and_async_reply", dict(msg=Any), lambda msg: session(code_reply, msg), spec_reply)


def code_reply_early(loop, msg):
    """replies given while the message is built, that is, before the caller can wait"""
    box = MailboxProcessor(None)
    chs = []

    def build(ch):
        chs.append(ch)
        replies(ch)
        return msg
    fut = box.post_and_async_reply(build)
    emit("at once", advance(wait(fut)))
    replies(chs[0])
    emit("received", advance(box.receive()))
    return advance(wait(fut))


def spec_reply_early(msg):
    r = s_replies(("waiting",))
    emit("at once", r)
    r = s_replies(r)
    emit("received", ("value", msg))
    return r


c("post_and_async_reply: early replies", dict(msg=Any), lambda msg: session(code_reply_early, msg), spec_reply_early)


def code_reply_waiting(loop, msg, v):
    """the receiver is already waiting for the message"""
    box = MailboxProcessor(None)
    rec = box.receive()
    emit("receiver", advance(rec))
    chs = []
    fut = box.post_and_async_reply(lambda ch: [chs.append(ch), msg][1])
    loop.idle()
    emit("receiver", advance(rec))
    emit("caller", advance(wait(fut)))
    chs[0].reply(v)
    return advance(wait(fut))


def spec_reply_waiting(msg, v):
    emit("receiver", ("waiting",))
    emit("receiver", ("value", msg))
    emit("caller", ("waiting",))
    return ("value", v)


c("post_and_async_reply: waiting receiver", dict(msg=Any, v=Any), lambda msg, v: session(code_reply_waiting, msg, v), spec_reply_waiting)


def code_reply_two(loop, v, w, flip):
    """two callers: each gets its own reply"""
    box = MailboxProcessor(None)
    chs = []
    a = box.post_and_async_reply(lambda ch: [chs.append(ch), 1][1])
    b = box.post_and_async_reply(lambda ch: [chs.append(ch), 2][1])
    emit("received", advance(box.receive()), advance(box.receive()))
    if flip:
        chs[1].reply(w)
        chs[0].reply(v)
    else:
        chs[0].reply(v)
        chs[1].reply(w)
    return advance(wait(a)), advance(wait(b))


def spec_reply_two(v, w, flip):
    emit("received", ("value", 1), ("value", 2))
    return ("value", v), ("value", w)


c("post_and_async_reply: two callers", dict(v=Any, w=Any, flip=Bool), lambda v, w, flip: session(code_reply_two, v, w, flip), spec_reply_two)


def code_build_raises(loop, f):
    box = MailboxProcessor(None)
    try:
        box.post_and_async_reply(lambda ch: f())
        emit("posted")
    except UserError as e:
        emit("raised", e.n)
    return advance(box.receive())


def spec_build_raises(f):
    try:
        v = f()
        emit("posted")
        return ("value", v)
    except UserError as e:
        emit("raised", e.n)
    return ("waiting",)


c("post_and_async_reply: build_message raises", dict(f=FunT()), lambda f: session(code_build_raises, f), spec_build_raises)


# ---- running computations
def work(f):
    """an arbitrary computation"""
    async def w():
        while ask():
            emit("step")
            await asyncio.sleep(0)
        return f()
    return w()


def s_work(f):
    while ask():
        emit("step")
    return f()


class Later:
    """an awaitable that is no coroutine"""

    def __init__(self, f):
        self.f = f

    def __await__(self):
        while ask():
            emit("step")
            yield None
        return self.f()


c("run_synchronously", dict(f=FunT()), lambda f: aiotools.run_synchronously(work(f)), s_work)
c("run_synchronously of an awaitable object", dict(f=FunT()), lambda f: aiotools.run_synchronously(Later(f)), s_work)


def result_of(co):
    try:
        while True:
            co.send(None)
            emit("suspended")
    except StopIteration as e:
        return e.value


c("singleton", dict(v=Any), lambda v: result_of(aiotools.singleton(v)), lambda v: v)
c("from_result", dict(v=Any), lambda v: result_of(wait(aiotools.from_result(v))), lambda v: v)
c("empty", dict(), lambda: result_of(aiotools.empty()), lambda: None)


START = ConstT(aiotools.start, aiotools.start_immediate)
TOKEN = ConstT(None, True)


def code_start(loop, st, f, tok):
    src = CancellationTokenSource()
    emit("returns", st(work(f), src.token if tok else None))
    loop.idle()
    emit("idle")
    src.cancel()
    loop.idle()


def spec_start(st, f, tok):
    emit("returns", None)
    try:
        s_work(f)
    except UserError:
        pass
    emit("idle")


c("start and start_immediate", dict(st=START, f=FunT(), tok=TOKEN), lambda st, f, tok: session(code_start, st, f, tok), spec_start)


async def interrupted():
    try:
        emit("begins")
        await asyncio.sleep(0)
        emit("goes on")
        await asyncio.sleep(0)
        emit("ends")
    except asyncio.CancelledError:
        emit("cancelled")
        raise


def code_cancel(loop, st, n):
    src = CancellationTokenSource()
    st(interrupted(), src.token)
    for _ in range(n):
        if loop.ready:
            loop.turn()
    src.cancel()
    loop.idle()
    emit("over")


def spec_cancel(st, n):
    for i in range(min(n, 3)):
        emit(("begins", "goes on", "ends")[i])
    if 0 < n < 3:
        emit("cancelled")
    emit("over")


c("start: cancelled through the token", dict(st=START, n=ConstT(0, 1, 2, 3, 4)), lambda st, n: session(code_cancel, st, n), spec_cancel)


async def lonely(held):
    """waits for something that nothing but the computation itself keeps"""
    fut = asyncio.get_running_loop().create_future()
    held.append(weakref.ref(fut))
    emit("begins")
    emit("got", await fut)
    return None


def code_kept(loop, st, v):
    held = []
    st(lonely(held))
    loop.idle()
    gc.collect()
    fut = held[0]()
    emit("alive", fut is not None)
    fut.set_result(v)
    loop.idle()


def spec_kept(st, v):
    emit("begins")
    emit("alive", True)
    emit("got", v)


c("start: a started computation is kept until it ends", dict(st=START, v=Any), lambda st, v: session(code_kept, st, v), spec_kept, runs=20,
  native_only="garbage collection is outside the verifier's heap model")

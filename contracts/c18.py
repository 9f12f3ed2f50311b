"""C18: the mailbox delivers every message once, in order.  Histories of any length; concurrent posts under every schedule."""
import asyncio

from contracts.loop import AnyLoop, Waiter, inside, session
from expression.core.mailbox import MailboxProcessor
from expression.system import CancellationTokenSource
from pv.lang import Any, Bool, ConstT, UserError, choose, contract, emit, fresh, interleave

P = "C18"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def token(tok):
    return CancellationTokenSource().token if tok else None


# ---- any history of posts, receives and turns of the event loop
def code_history(loop, tok):
    box = MailboxProcessor(token(tok))
    w = None
    while True:
        k = choose(6)
        if k == 0:
            box.post(fresh(Any))
        elif k == 1:
            if w is None:
                w = Waiter(box.receive(), False)
                r = w.step()
                if r[0] != "waiting":
                    w = None
                emit("receive", r)
        elif k == 2:
            loop.some(True)
        elif k == 3:
            loop.some(False)
        elif k == 4:
            loop.settle()
            if w is not None:
                r = w.step()
                if r[0] != "waiting":
                    w = None
                emit("later", r)
        else:
            return None


def spec_history(tok):
    q, w = [], False
    while True:
        k = choose(6)
        if k == 0:
            q.append(fresh(Any))
        elif k == 1:
            if not w:
                if q:
                    emit("receive", ("value", q.pop(0)))
                else:
                    w = True
                    emit("receive", ("waiting",))
        elif k == 4:
            if w:
                if q:
                    w = False
                    emit("later", ("value", q.pop(0)))
                else:
                    emit("later", ("waiting",))
        elif k == 5:
            return None


c("history", dict(), lambda: session(code_history, None, kind=AnyLoop), lambda: spec_history(None), queues=True, secs=300)
c("history with a token", dict(), lambda: session(code_history, True, kind=AnyLoop), lambda: spec_history(True), queues=True, secs=300)


# ---- a processor
def code_processor(loop, tok, slow):
    sent = []  # and not yet received
    wrong = []

    async def body(box):
        while True:
            msg = await box.receive()
            if not sent or sent.pop(0) is not msg:
                wrong.append(msg)
            if slow:
                await asyncio.sleep(0)

    box = MailboxProcessor.start(body, token(tok))
    while True:
        k = choose(5)
        if k == 0:
            v = fresh(Any)
            sent.append(v)
            box.post(v)
        elif k == 1:
            loop.some(True)
        elif k == 2:
            loop.some(False)
        elif k == 3:
            loop.settle()
            emit("all received", sent == [], wrong)
        else:
            return None


def spec_processor(tok, slow):
    while True:
        k = choose(5)
        if k == 0:
            fresh(Any)
        elif k == 3:
            emit("all received", True, [])
        elif k == 4:
            return None


for _t in (None, True):
    for _s in (False, True):
        c(f"processor{' with a token' if _t else ''}{', suspending' if _s else ''}", dict(),
          (lambda t, s: lambda: session(code_processor, t, s, kind=AnyLoop))(_t, _s), (lambda t, s: lambda: spec_processor(t, s))(_t, _s), queues=True, secs=300)


# ---- posts from other threads
def drain(loop, box, w, n):
    """the n messages that the receiver gets from now on"""
    got = []
    for _ in range(n):
        if w is None:
            w = Waiter(box.receive())
        r = w.step()
        if r[0] == "waiting":
            loop.idle()
            r = w.step()
        if r[0] == "value":
            got.append(r[1])
            w = None
        else:
            got.append((0, r[0]))
    if w is None:
        w = Waiter(box.receive())
    emit("no more", w.step())
    loop.idle()
    emit("no more", w.step())
    return got


def check(got, *threads):
    """every message once, those of each thread in order"""
    ids = [x[0] for x in got]
    emit("all once", len(ids) == sum(len(t) for t in threads) and all(x[0] in ids for t in threads for x in t))
    for t in threads:
        mine = [x[0] for x in t]
        emit("in order", [i for i in ids if i in mine] == mine)
    for t in threads:
        for x in t:
            emit("unchanged", [y[1] for y in got if y[0] == x[0]] == [x[1]])


def s_check(*threads):
    n = sum(len(t) for t in threads)
    for _ in range(2):
        emit("no more", ("waiting",))
    emit("all once", True)
    for _ in threads:
        emit("in order", True)
    for _ in range(n):
        emit("unchanged", True)


def posting(box, msgs):
    def run():
        for x in msgs:
            box.post(x)
    return run


def code_post_post(loop, waiting, u, v, x):
    box = MailboxProcessor(None)
    w = None
    if waiting:
        w = Waiter(box.receive())
        emit("waits", w.step())
    a, b = [(1, u), (2, v)], [(3, x)]
    emit(interleave(posting(box, a), posting(box, b)))
    check(drain(loop, box, w, 3), a, b)


def spec_post_post(waiting, u, v, x):
    if waiting:
        emit("waits", ("waiting",))
    emit((("ret", None), ("ret", None)))
    s_check([1, 2], [3])


c("two threads post", dict(waiting=Bool, u=Any, v=Any, x=Any), lambda *a: session(code_post_post, *a), spec_post_post)


def code_post_receive(loop, waiting, u, v):
    """a thread posts while the receiver takes what is there and the event loop runs"""
    box = MailboxProcessor(None)
    a = [(1, u), (2, v)]
    got = []
    st = [None]

    def receive():
        if st[0] is None:
            st[0] = Waiter(box.receive())
        r = st[0].step()
        if r[0] == "value":
            got.append(r[1])
            st[0] = None

    def main():
        receive()
        loop.idle()
        receive()
    if waiting:
        receive()
        emit("waits", got)
    interleave(posting(box, a), inside(loop, main))
    check(got + drain(loop, box, st[0], 2 - len(got)), a)


def spec_post_receive(waiting, u, v):
    if waiting:
        emit("waits", [])
    s_check([1, 2])


c("a thread posts while messages are received", dict(waiting=Bool, u=Any, v=Any), lambda *a: session(code_post_receive, *a), spec_post_receive)


def asking(loop, box, x):
    """a thread that posts and expects a reply"""
    return inside(loop, lambda: box.post_and_async_reply(lambda ch: x))


def code_ask_ask(loop, waiting, u, v):
    box = MailboxProcessor(None)
    w = None
    if waiting:
        w = Waiter(box.receive())
        emit("waits", w.step())
    a, b = [(1, u)], [(2, v)]
    interleave(asking(loop, box, a[0]), asking(loop, box, b[0]))
    check(drain(loop, box, w, 2), a, b)


def spec_ask_ask(waiting, u, v):
    if waiting:
        emit("waits", ("waiting",))
    s_check([1], [2])


c("two threads post and expect replies", dict(waiting=Bool, u=Any, v=Any), lambda *a: session(code_ask_ask, *a), spec_ask_ask)


def code_ask_receive(loop, waiting, u, v):
    """a thread posts expecting a reply while another posts and the loop delivers"""
    box = MailboxProcessor(None)
    w = None
    if waiting:
        w = Waiter(box.receive())
        emit("waits", w.step())
    a, b = [(1, u)], [(2, v)]
    box.post(b[0])
    interleave(asking(loop, box, a[0]), inside(loop, loop.idle))
    check(drain(loop, box, w, 2), a, b)


c("a thread posts, expecting a reply, while the loop delivers", dict(waiting=Bool, u=Any, v=Any), lambda *a: session(code_ask_receive, *a), spec_ask_ask)


def code_two_boxes(loop, u, v):
    a, b = MailboxProcessor(None), MailboxProcessor(None)
    wa = Waiter(a.receive())
    emit("a", wa.step())
    b.post(v)
    loop.idle()
    emit("a", wa.step())
    emit("b", Waiter(b.receive()).step())
    a.post(u)
    loop.idle()
    emit("a", wa.step())


def spec_two_boxes(u, v):
    emit("a", ("waiting",))
    emit("a", ("waiting",))
    emit("b", ("value", v))
    emit("a", ("value", u))


c("mailboxes are independent", dict(u=Any, v=Any), lambda u, v: session(code_two_boxes, u, v), spec_two_boxes)


# ---- a second receive while one is waiting is refused, and the one that waits loses nothing
def code_overlap(loop, u, v):
    a = MailboxProcessor(None)
    w = Waiter(a.receive())
    emit("first", w.step())
    try:
        Waiter(a.receive()).step()
    except UserError:
        raise
    except Exception:
        emit("refused")
    a.post(u)
    loop.idle()
    emit("first", w.step())
    a.post(v)
    emit("next", Waiter(a.receive()).step())


def spec_overlap(u, v):
    emit("first", ("waiting",))
    emit("refused")
    emit("first", ("value", u))
    emit("next", ("value", v))


c("overlapping receives", dict(u=Any, v=Any), lambda u, v: session(code_overlap, u, v), spec_overlap)


# ---- cancellation: the receive that waits is cancelled by the next post, and nothing is delivered any more
def code_cancelled(loop, u, v, waiting):
    src = CancellationTokenSource()
    a = MailboxProcessor(src.token)
    a.post(u)
    emit("before", Waiter(a.receive()).step())
    if waiting:
        w = Waiter(a.receive())
        emit("waits", w.step())
        src.cancel()
        a.post(v)
        loop.idle()
        emit("after", w.step())
    else:
        a.post(v)
        src.cancel()
        emit("after", Waiter(a.receive()).step())


def spec_cancelled(u, v, waiting):
    emit("before", ("value", u))
    if waiting:
        emit("waits", ("waiting",))
    emit("after", ("cancelled",))


c("cancelled mailbox", dict(u=Any, v=Any, waiting=Bool), lambda *a: session(code_cancelled, *a), spec_cancelled)

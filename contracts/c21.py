"""C21: disposables.  Histories are loops of arbitrary operations; concurrent operations run under every schedule."""
from contracts.util import Suspend
from expression.system import (AnonymousDisposable, AsyncAnonymousDisposable, AsyncCompositeDisposable, AsyncDisposable, Disposable,
                               ObjectDisposedException)
from pv.lang import ConstT, FunT, NoneT, ObjsT, UserError, choose, contract, emit, interleave

P = "C21"
ACT = FunT(NoneT())
CALM = FunT(NoneT(), raises=False)


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


MK = ConstT(Disposable.create, AnonymousDisposable)


def attempt(what, f):
    """performs f and makes its outcome observable"""
    try:
        emit(what, "returns", f() is None)
    except UserError as e:
        emit(what, "raises", e.n)
    except ObjectDisposedException:
        emit(what, "refused")


# ---- one thread: any history of dispose calls and with-blocks
def using(d, body):
    def f():
        with d as x:
            emit("entered", x is d)
            body()
    return f


def code_history(mk, act, body):
    d = mk(act)
    while True:
        k = choose(3)
        if k == 0:
            attempt("dispose", d.dispose)
        elif k == 1:
            attempt("with", using(d, body))
        else:
            return None


def spec_history(mk, act, body):
    disposed = False
    while True:
        k = choose(3)
        if k == 0:
            try:
                if not disposed:
                    disposed = True
                    act()
                emit("dispose", "returns", True)
            except UserError as e:
                emit("dispose", "raises", e.n)
        elif k == 1:
            if disposed:
                emit("with", "refused")
                continue
            emit("entered", True)
            try:
                try:
                    body()
                finally:
                    if not disposed:
                        disposed = True
                        act()
                emit("with", "returns", True)
            except UserError as e:
                emit("with", "raises", e.n)
        else:
            return None


c("history", dict(mk=MK, act=ACT, body=ACT), code_history, spec_history)


def code_body_disposes(mk, act, body):
    d = mk(act)

    def f():
        with d:
            d.dispose()
            body()
    attempt("with", f)
    attempt("dispose", d.dispose)


def spec_body_disposes(mk, act, body):
    try:
        act()
        body()
        emit("with", "returns", True)
    except UserError as e:
        emit("with", "raises", e.n)
    emit("dispose", "returns", True)


c("disposed inside the with-block", dict(mk=MK, act=ACT, body=ACT), code_body_disposes, spec_body_disposes)


def code_reentrant(mk, act):
    d = mk(lambda: [attempt("inner", d.dispose), act()] and None)
    attempt("outer", d.dispose)
    attempt("again", d.dispose)


def spec_reentrant(mk, act):
    emit("inner", "returns", True)
    try:
        act()
        emit("outer", "returns", True)
    except UserError as e:
        emit("outer", "raises", e.n)
    emit("again", "returns", True)


c("the action disposes again", dict(mk=MK, act=ACT), code_reentrant, spec_reentrant)


def code_independent(mk, act, f):
    a, b = mk(act), mk(f)
    a.dispose()
    b.dispose()
    a.dispose()
    b.dispose()


def spec_independent(mk, act, f):
    act()
    f()


c("two disposables are independent", dict(mk=MK, act=ACT, f=ACT), code_independent, spec_independent)


# ---- user-defined disposables through the base class
class Own(Disposable):
    def __init__(self, f):
        self.f = f

    def dispose(self):
        self.f()


def spec_with(f, body):
    emit("entered", True)
    try:
        body()
    finally:
        f()
    return None


c("with over a user-defined disposable", dict(f=ACT, body=ACT), lambda f, body: using(Own(f), body)(), spec_with)


# ---- threads
def code_threads(n):
    def f(mk, act):
        d = mk(act)
        bad = 0
        for o in interleave(*[d.dispose] * n):
            if o[0] == "exc":
                bad = bad + 1
        attempt("later", d.dispose)
        return bad
    return f


def spec_threads(mk, act):
    bad = 0
    try:
        act()
    except UserError:
        bad = 1
    emit("later", "returns", True)
    return bad


c("two threads dispose", dict(mk=MK, act=ACT), code_threads(2), spec_threads)
c("three threads dispose", dict(mk=MK, act=ACT), code_threads(3), spec_threads)


def code_thread_with(mk, act):
    d = mk(act)
    entered = []

    def block():
        try:
            with d:
                entered.append(1)
        except ObjectDisposedException:
            entered.append(0)
    outs = interleave(d.dispose, block)
    return len(entered), outs[0][0], outs[1][0]


def spec_thread_with(mk, act):
    act()
    return 1, "ret", "ret"


c("a with-block against dispose", dict(mk=MK, act=CALM), code_thread_with, spec_thread_with)


# ---- asynchronous disposables
def slow(f):
    """an asynchronous action: suspends, then calls f"""
    async def action():
        emit("action")
        await Suspend("working")
        f()
    return action


AMK = ConstT(AsyncDisposable.create, AsyncAnonymousDisposable)


def resume(co):
    """one step of a task: True when it is finished"""
    try:
        emit("suspended", co.send(None))
        return False
    except StopIteration as e:
        emit("finished", e.value is None)
    except UserError as e:
        emit("raised", e.n)
    except ObjectDisposedException:
        emit("refused")
    return True


def code_async(mk, f):
    d = mk(slow(f))
    a = b = None
    while True:
        k = choose(5)
        if k == 0:
            if a is None:
                a = d.dispose_async()
        elif k == 1:
            if b is None:
                b = d.dispose_async()
        elif k == 2:
            if a is not None and resume(a):
                a = None
        elif k == 3:
            if b is not None and resume(b):
                b = None
        else:
            return None


def spec_async(mk, f):
    claimed = False
    a = b = None
    while True:
        k = choose(5)
        if k == 0:
            if a is None:
                a = "new"
        elif k == 1:
            if b is None:
                b = "new"
        elif k == 2 or k == 3:
            s = a if k == 2 else b
            if s == "new":
                if claimed:
                    emit("finished", True)
                    s = None
                else:
                    claimed = True
                    emit("action")
                    emit("suspended", "working")
                    s = "acting"
            elif s == "acting":
                s = None
                try:
                    f()
                    emit("finished", True)
                except UserError as e:
                    emit("raised", e.n)
            if k == 2:
                a = s
            else:
                b = s
        else:
            return None


c("asynchronous: concurrent dispose_async", dict(mk=AMK, f=ACT), code_async, spec_async)


async def ablock(d, body):
    async with d as x:
        emit("entered", x is d)
        await Suspend("inside")
        body()


def code_async_history(mk, f, body):
    d = mk(slow(f))
    while True:
        k = choose(3)
        if k == 0:
            t = d.dispose_async()
        elif k == 1:
            t = ablock(d, body)
        else:
            return None
        while not resume(t):
            pass


def spec_async_history(mk, f, body):
    claimed = False
    while True:
        k = choose(3)
        if k == 2:
            return None
        if k == 1:
            if claimed:
                emit("refused")
                continue
            emit("entered", True)
            emit("suspended", "inside")
        try:
            try:
                if k == 1:
                    body()
            finally:
                if not claimed:
                    claimed = True
                    emit("action")
                    emit("suspended", "working")
                    f()
            emit("finished", True)
        except UserError as e:
            emit("raised", e.n)


c("asynchronous: history", dict(mk=AMK, f=ACT, body=ACT), code_async_history, spec_async_history)


class AOwn(AsyncDisposable):
    def __init__(self, f):
        self.f = f

    async def dispose_async(self):
        await Suspend(self.f())


def spec_awith(f, body):
    emit("entered", True)
    emit("suspended", "inside")
    try:
        body()
    finally:
        emit("suspended", f())
    return None


c("async with over a user-defined disposable", dict(f=FunT(), body=ACT), lambda f, body: run(ablock(AOwn(f), body)), spec_awith)


def run(co):
    """drives a coroutine to its end"""
    while True:
        try:
            x = co.send(None)
        except StopIteration as e:
            return e.value
        emit("suspended", x)


# ---- composites
def spec_composite(ms):
    for m in ms:
        emit("suspended", m.f())
    return None


AMS = ObjsT(AOwn)
c("composite", dict(ms=AMS), lambda ms: run(AsyncDisposable.composite(*ms).dispose_async()), spec_composite, records=[AOwn])
c("AsyncCompositeDisposable", dict(ms=AMS), lambda ms: run(AsyncCompositeDisposable(*ms).dispose_async()), spec_composite, records=[AOwn])


def spec_composite_with(ms, body):
    emit("entered", True)
    emit("suspended", "inside")
    try:
        body()
    finally:
        for m in ms:
            emit("suspended", m.f())
    return None


c("async with over a composite", dict(ms=AMS, body=ACT), lambda ms, body: run(ablock(AsyncDisposable.composite(*ms), body)), spec_composite_with,
  records=[AOwn])


def code_members(f, g):
    a, b = AsyncDisposable.create(slow(f)), AsyncDisposable.create(slow(g))
    d = AsyncDisposable.composite(a, b, a)
    run(d.dispose_async())
    run(d.dispose_async())
    run(a.dispose_async())
    return run(b.dispose_async())


def spec_members(f, g):
    for h in (f, g):
        emit("action")
        emit("suspended", "working")
        h()
    return None


c("members of a composite are disposed once", dict(f=ACT, g=ACT), code_members, spec_members)


def code_two_composites(f):
    a = AsyncDisposable.create(slow(f))
    d, e = AsyncDisposable.composite(a), AsyncDisposable.composite(AsyncDisposable.composite(a), a)
    x, y = d.dispose_async(), e.dispose_async()
    resume(x)
    resume(y)
    resume(x)


def spec_two_composites(f):
    emit("action")
    emit("suspended", "working")
    emit("finished", True)
    try:
        f()
        emit("finished", True)
    except UserError as e:
        emit("raised", e.n)


c("composites that share a member, at the same time", dict(f=ACT), code_two_composites, spec_two_composites)
c("empty", dict(), lambda: run(AsyncDisposable.empty().dispose_async()), lambda: None)
c("composite of nothing", dict(), lambda: run(AsyncDisposable.composite().dispose_async()), lambda: None)

"""C14: async option and async result builders.  The body is the most general asynchronous generator: a loop of arbitrary actions."""
from expression import Nothing, Ok, Some, effect
from pv.lang import Any, FunT, OneOf, OptT, ResT, SeqT, choose, contract, emit, fresh
from contracts.util import Suspend, drive

P = "C14"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


ACT = FunT(Any)
O, R, RO, RR = OptT(), ResT(), OneOf(Any, OptT()), OneOf(Any, ResT())


def abody(act, ty):
    async def f(*args, **kw):
        emit("start", args, tuple(kw.items()))
        while True:
            k = choose(5)
            if k == 0:
                emit("bound", await fresh(ty))
            elif k == 1:
                emit("resumed", (yield fresh(Any)))
            elif k == 2:
                return
            elif k == 3:
                emit("awaited", await Suspend(fresh(Any)))
            else:
                emit("did", act())
    return f


def s_option(act, args, kw):
    emit("start", args, kw)
    last = Nothing
    while True:
        k = choose(5)
        if k == 0:
            o = fresh(O)
            if o.tag != "some":
                return Nothing
            emit("bound", o.some)
        elif k == 1:
            v = fresh(Any)
            last = Some(v)
            emit("resumed", v)
        elif k == 2:
            return last
        elif k == 3:
            emit("suspended", fresh(Any))
            emit("awaited", fresh(Any))
        else:
            emit("did", act())


def s_result(act, args, kw):
    emit("start", args, kw)
    last = Ok(None)
    while True:
        k = choose(5)
        if k == 0:
            o = fresh(R)
            if o.tag != "ok":
                return o
            emit("bound", o.ok)
        elif k == 1:
            v = fresh(Any)
            last = Ok(v)
            emit("resumed", v)
        elif k == 2:
            return last
        elif k == 3:
            emit("suspended", fresh(Any))
            emit("awaited", fresh(Any))
        else:
            emit("did", act())


c("async_option", dict(xs=SeqT(), act=ACT), lambda xs, act: drive(effect.async_option[object]()(abody(act, O))(*xs)), lambda xs, act: s_option(act, xs, ()))
c("async_option keywords", dict(a=Any, b=Any, act=ACT), lambda a, b, act: drive(effect.async_option[object]()(abody(act, O))(a, key=b)),
  lambda a, b, act: s_option(act, (a,), (("key", b),)))
c("async_result", dict(xs=SeqT(), act=ACT), lambda xs, act: drive(effect.async_result[object, object]()(abody(act, R))(*xs)),
  lambda xs, act: s_result(act, xs, ()))
c("async_result keywords", dict(a=Any, b=Any, act=ACT), lambda a, b, act: drive(effect.async_result[object, object]()(abody(act, R))(a, key=b)),
  lambda a, b, act: s_result(act, (a,), (("key", b),)))
c("async_try", dict(xs=SeqT(), act=ACT), lambda xs, act: drive(effect.async_try[object]()(abody(act, R))(*xs)),
  lambda xs, act: s_result(act, xs, ()))


# ---- straight-line bodies, as users write them: x = yield await option
def two(f, g, h):
    async def body(x):
        a = yield await f(x)
        b = yield await g(a)
        yield h(a, b)
    return body


def s_two(f, g, h, x):
    o = f(x)
    if o.tag != "some":
        return Nothing
    p = g(o.some)
    if p.tag != "some":
        return Nothing
    return Some(h(o.some, p.some))


def s_two_r(f, g, h, x):
    o = f(x)
    if o.tag != "ok":
        return o
    p = g(o.ok)
    if p.tag != "ok":
        return p
    return Ok(h(o.ok, p.ok))


FO, FR, F = FunT(O), FunT(R), FunT()
c("async_option two binds", dict(x=Any, f=FO, g=FO, h=F), lambda x, f, g, h: drive(effect.async_option[object]()(two(f, g, h))(x)), lambda x, f, g, h: s_two(f, g, h, x))
c("async_result two binds", dict(x=Any, f=FR, g=FR, h=F), lambda x, f, g, h: drive(effect.async_result[object, object]()(two(f, g, h))(x)),
  lambda x, f, g, h: s_two_r(f, g, h, x))


def twice(deco, f, g, h, x, y):
    w = deco(two(f, g, h))
    return (drive(w(x)), drive(w(y)))


c("async_option called twice", dict(x=Any, y=Any, f=FO, g=FO, h=F), lambda x, y, f, g, h: twice(effect.async_option[object](), f, g, h, x, y),
  lambda x, y, f, g, h: (s_two(f, g, h, x), s_two(f, g, h, y)))
c("async_result called twice", dict(x=Any, y=Any, f=FR, g=FR, h=F), lambda x, y, f, g, h: twice(effect.async_result[object, object](), f, g, h, x, y),
  lambda x, y, f, g, h: (s_two_r(f, g, h, x), s_two_r(f, g, h, y)))


def interleaved(deco, f, g, x, y):
    """two calls of one decorated function, suspended in turn"""
    async def body(z):
        a = yield await f(z)
        r = await Suspend(a)
        yield g(a, r)
    w = deco(body)
    p, q = w(x), w(y)
    emit("first", step(p, None))
    emit("second", step(q, None))
    emit("first", step(p, 1))
    emit("second", step(q, 2))


def step(coro, v):
    try:
        return ("suspended", coro.send(v))
    except StopIteration as e:
        return ("done", e.value)


def s_interleaved(f, g, x, y):
    o = f(x)
    if o.tag != "some":
        emit("first", ("done", Nothing))
    else:
        emit("first", ("suspended", o.some))
    p = f(y)
    if p.tag != "some":
        emit("second", ("done", Nothing))
    else:
        emit("second", ("suspended", p.some))
    if o.tag != "some":
        raise RuntimeError
    emit("first", ("done", Some(g(o.some, 1))))
    if p.tag != "some":
        raise RuntimeError
    emit("second", ("done", Some(g(p.some, 2))))


c("async_option interleaved calls", dict(x=Any, y=Any, f=FO, g=F), lambda x, y, f, g: interleaved(effect.async_option[object](), f, g, x, y),
  lambda x, y, f, g: s_interleaved(f, g, x, y))


# ---- bodies without yield: coroutines and plain functions
def cbody(act, ty, rty):
    async def f(*args, **kw):
        emit("start", args, tuple(kw.items()))
        while True:
            k = choose(4)
            if k == 0:
                emit("bound", await fresh(ty))
            elif k == 1:
                return fresh(rty)
            elif k == 2:
                emit("awaited", await Suspend(fresh(Any)))
            else:
                emit("did", act())
    return f


def s_coro(act, args, kw, ty, rty, zero, wrap, good):
    emit("start", args, kw)
    while True:
        k = choose(4)
        if k == 0:
            o = fresh(ty)
            if o.tag != good:
                return o
            emit("bound", o.some if good == "some" else o.ok)
        elif k == 1:
            r = fresh(rty)
            return zero if r is None else wrap(r)
        elif k == 2:
            emit("suspended", fresh(Any))
            emit("awaited", fresh(Any))
        else:
            emit("did", act())


c("async_option coroutine", dict(xs=SeqT(), k=Any, act=ACT), lambda xs, k, act: drive(effect.async_option[object]()(cbody(act, O, RO))(*xs, key=k)),
  lambda xs, k, act: s_coro(act, xs, (("key", k),), O, RO, Nothing, Some, "some"))
c("async_result coroutine", dict(xs=SeqT(), k=Any, act=ACT), lambda xs, k, act: drive(effect.async_result[object, object]()(cbody(act, R, RR))(*xs, key=k)),
  lambda xs, k, act: s_coro(act, xs, (("key", k),), R, RR, Ok(None), Ok, "ok"))
c("async_option plain", dict(xs=SeqT(), k=Any, f=FunT(RO)), lambda xs, k, f: drive(effect.async_option[object]()(lambda *a, **kw: f(*a, **kw))(*xs, key=k)),
  lambda xs, k, f: (lambda r: Nothing if r is None else Some(r))(f(*xs, key=k)))
c("async_result plain", dict(xs=SeqT(), k=Any, f=FunT(RR)), lambda xs, k, f: drive(effect.async_result[object, object]()(lambda *a, **kw: f(*a, **kw))(*xs, key=k)),
  lambda xs, k, f: Ok(f(*xs, key=k)))

# ---- the operations of the builders themselves, as a custom computation would call them
class Bound:
    """an asynchronous continuation"""

    def __init__(self, f):
        self.f = f

    async def __call__(self, x):
        await Suspend("in")
        return self.f(x)


BO, BR = effect.async_option[object](), effect.async_result[object, object]()
FAO, FAR = FunT(O), FunT(R)


def s_bind_o(o, f):
    if o.tag != "some":
        return Nothing
    emit("suspended", "in")
    fresh(Any)
    return f(o.some)


def s_bind_r(o, f):
    if o.tag != "ok":
        return o
    emit("suspended", "in")
    fresh(Any)
    return f(o.ok)


c("async_option bind", dict(o=O, f=FAO), lambda o, f: drive(BO.bind(o, Bound(f))), s_bind_o)
c("async_result bind", dict(o=R, f=FAR), lambda o, f: drive(BR.bind(o, Bound(f))), s_bind_r)
c("async_option return", dict(v=Any, o=O), lambda v, o: (drive(BO.return_(v)), drive(BO.return_from(o)), drive(BO.zero()), drive(BO.run(o))), lambda v, o: (Some(v), o, Nothing, o))
c("async_result return", dict(v=Any, o=R), lambda v, o: (drive(BR.return_(v)), drive(BR.return_from(o)), drive(BR.zero()), drive(BR.run(o))), lambda v, o: (Ok(v), o, Ok(None), o))
c("async_option combine", dict(a=O, b=O), lambda a, b: drive(BO.combine(a, b)), lambda a, b: b if a.tag == "some" else Nothing)
c("async_result combine", dict(a=R, b=R), lambda a, b: drive(BR.combine(a, b)), lambda a, b: b if a.tag == "ok" else a)
c("async delay", dict(f=FAO, g=FAR), lambda f, g: (drive(BO.delay(f)), drive(BR.delay(g))), lambda f, g: (f(), g()))

"""C13: option, result and seq builders.  The body is the most general generator: a loop of arbitrary actions."""
from expression import Error, Nothing, Ok, Some, effect
from expression.collections import Seq, seq
from expression.effect import seq as seq_effect
from pv.lang import Any, Bool, FunT, OneOf, OptT, ResT, SeqT, ask, choose, contract, emit, fresh

P = "C13"
V = OneOf(Any, OptT())


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


ACT = FunT(Any)


# ---- option
def obody(act):
    def f(*args, **kw):
        emit("start", args, tuple(kw.items()))
        while True:
            k = choose(4)
            if k == 0:
                emit("bound", (yield from fresh(OptT())))
            elif k == 1:
                emit("resumed", (yield fresh(Any)))
            elif k == 2:
                return fresh(V)
            else:
                emit("did", act())
    return f


def s_option(act, args, kw):
    emit("start", args, kw)
    last = Nothing
    while True:
        k = choose(4)
        if k == 0:
            o = fresh(OptT())
            if o.tag != "some":
                return Nothing
            last = o
            emit("bound", o.some)
        elif k == 1:
            v = fresh(Any)
            last = Some(v)
            emit("resumed", v)
        elif k == 2:
            r = fresh(V)
            if r is None:
                return last
            return Some(r)
        else:
            emit("did", act())


c("option", dict(xs=SeqT(), act=ACT), lambda xs, act: effect.option[object]()(obody(act))(*xs), lambda xs, act: s_option(act, xs, ()))
c("option keywords", dict(a=Any, b=Any, act=ACT), lambda a, b, act: effect.option[object]()(obody(act))(a, key=b), lambda a, b, act: s_option(act, (a,), (("key", b),)))


# ---- result
def rbody(act):
    def f(*args, **kw):
        emit("start", args, tuple(kw.items()))
        while True:
            k = choose(4)
            if k == 0:
                emit("bound", (yield from fresh(ResT())))
            elif k == 1:
                emit("resumed", (yield fresh(Any)))
            elif k == 2:
                return fresh(OneOf(Any, ResT()))
            else:
                emit("did", act())
    return f


def s_result(act, args, kw):
    emit("start", args, kw)
    last = Ok(None)
    while True:
        k = choose(4)
        if k == 0:
            o = fresh(ResT())
            if o.tag != "ok":
                return o
            last = o
            emit("bound", o.ok)
        elif k == 1:
            v = fresh(Any)
            last = Ok(v)
            emit("resumed", v)
        elif k == 2:
            r = fresh(OneOf(Any, ResT()))
            if r is None:
                return last
            return Ok(r)
        else:
            emit("did", act())


c("result", dict(xs=SeqT(), act=ACT), lambda xs, act: effect.result[object, object]()(rbody(act))(*xs), lambda xs, act: s_result(act, xs, ()))
c("result keywords", dict(a=Any, b=Any, act=ACT), lambda a, b, act: effect.result[object, object]()(rbody(act))(a, key=b),
  lambda a, b, act: s_result(act, (a,), (("key", b),)))
c("try", dict(xs=SeqT(), act=ACT), lambda xs, act: effect.try_[object]()(rbody(act))(*xs), lambda xs, act: s_result(act, xs, ()))


# ---- straight-line bodies, as users write them
def two(f, g, h):
    def body(x):
        a = yield from f(x)
        b = yield from g(a)
        return h(a, b)
    return body


def s_two(f, g, h, x):
    o = f(x)
    if o.tag != "some":
        return Nothing
    p = g(o.some)
    if p.tag != "some":
        return Nothing
    r = h(o.some, p.some)
    return p if r is None else Some(r)


def s_two_r(f, g, h, x):
    o = f(x)
    if o.tag != "ok":
        return o
    p = g(o.ok)
    if p.tag != "ok":
        return p
    r = h(o.ok, p.ok)
    return p if r is None else Ok(r)


FO, FR, F = FunT(OptT()), FunT(ResT()), FunT()
c("option two binds", dict(x=Any, f=FO, g=FO, h=F), lambda x, f, g, h: effect.option[object]()(two(f, g, h))(x), lambda x, f, g, h: s_two(f, g, h, x))
c("result two binds", dict(x=Any, f=FR, g=FR, h=F), lambda x, f, g, h: effect.result[object, object]()(two(f, g, h))(x), lambda x, f, g, h: s_two_r(f, g, h, x))


def cleanup(f, h):
    def body(x):
        try:
            a = yield from f(x)
            return h(a)
        finally:
            emit("cleanup")
    return body


def s_cleanup(f, h, x):
    try:
        o = f(x)
        if o.tag != "some":
            return Nothing
        r = h(o.some)
        return o if r is None else Some(r)
    finally:
        emit("cleanup")


c("option finally", dict(x=Any, f=FO, h=F), lambda x, f, h: effect.option[object]()(cleanup(f, h))(x), lambda x, f, h: s_cleanup(f, h, x))


def twice(deco, f, g, h, x, y):
    w = deco(two(f, g, h))
    return (w(x), w(y))


c("option called twice", dict(x=Any, y=Any, f=FO, g=FO, h=F), lambda x, y, f, g, h: twice(effect.option[object](), f, g, h, x, y),
  lambda x, y, f, g, h: (s_two(f, g, h, x), s_two(f, g, h, y)))
c("result called twice", dict(x=Any, y=Any, f=FR, g=FR, h=F), lambda x, y, f, g, h: twice(effect.result[object, object](), f, g, h, x, y),
  lambda x, y, f, g, h: (s_two_r(f, g, h, x), s_two_r(f, g, h, y)))


# ---- a builder object shared by two functions, one calling the other
def nested(f, g, h):
    b = effect.option[object]()

    @b
    def inner(x):
        a = yield from f(x)
        return g(a)

    @b
    def outer(x):
        a = yield from inner(x)
        c = yield from inner(a)
        return h(a, c)
    return outer


def s_inner(f, g, x):
    o = f(x)
    if o.tag != "some":
        return Nothing
    r = g(o.some)
    return o if r is None else Some(r)


def s_nested(f, g, h, x):
    a = s_inner(f, g, x)
    if a.tag != "some":
        return Nothing
    b = s_inner(f, g, a.some)
    if b.tag != "some":
        return Nothing
    r = h(a.some, b.some)
    return b if r is None else Some(r)


c("option nested", dict(x=Any, f=FO, g=F, h=F), lambda x, f, g, h: nested(f, g, h)(x), lambda x, f, g, h: s_nested(f, g, h, x))

# ---- plain (non-generator) bodies
c("option plain", dict(xs=SeqT(), k=Any, f=FunT(V)), lambda xs, k, f: effect.option[object]()(lambda *a, **kw: f(*a, **kw))(*xs, key=k),
  lambda xs, k, f: (lambda r: Nothing if r is None else Some(r))(f(*xs, key=k)))
c("result plain", dict(xs=SeqT(), k=Any, f=FunT(OneOf(Any, ResT()))), lambda xs, k, f: effect.result[object, object]()(lambda *a, **kw: f(*a, **kw))(*xs, key=k),
  lambda xs, k, f: Ok(f(*xs, key=k)))


# ---- seq: every yielded value, in order, then the returned value
def s_concat(*its):
    """contract of seq.concat for callers (proved under C10)"""
    out = ()
    for it in its:
        out = out + tuple(it)
    return Seq(out)


def sbody(act):
    def f(*args, **kw):
        emit("start", args, tuple(kw.items()))
        while True:
            k = choose(3)
            if k == 0:
                emit("resumed", (yield fresh(Any)))
            elif k == 1:
                return fresh(Any)
            else:
                emit("did", act())
    return f


def s_seq(act, args, kw):
    emit("start", args, kw)
    out = []
    while True:
        k = choose(3)
        if k == 0:
            v = fresh(Any)
            out.append(v)
            emit("resumed", v)
        elif k == 1:
            r = fresh(Any)
            if r is not None:
                out.append(r)
            return tuple(out)
        else:
            emit("did", act())


c("seq", dict(xs=SeqT(), act=ACT), lambda xs, act: tuple(seq_effect[object]()(sbody(act))(*xs)), lambda xs, act: s_seq(act, xs, ()), summaries={seq.concat: s_concat})


def both(it):
    return (tuple(it), tuple(it))


def sbody3(f):
    def body(x, y):
        a = yield x
        b = yield f(a)
        yield y
    return body


c("seq three yields, iterated twice", dict(x=Any, y=Any, f=F), lambda x, y, f: both(seq_effect[object]()(sbody3(f))(x, y)),
  lambda x, y, f: (lambda t: (t, t))((x, f(x), y)))
c("seq plain", dict(v=Any), lambda v: tuple(seq_effect[object]()(lambda: v)()), lambda v: () if v is None else (v,))


def from_body(xs):
    yield from Seq(xs)


c("seq yield from", dict(xs=SeqT()), lambda xs: tuple(seq_effect[object]()(from_body)(xs)), lambda xs: xs, summaries={seq.concat: s_concat})

# ---- the operations of the builders themselves, as a custom computation would call them
BO, BR = effect.option[object](), effect.result[object, object]()
c("option bind", dict(o=OptT(), f=FO), lambda o, f: BO.bind(o, f), lambda o, f: f(o.some) if o.tag == "some" else Nothing)
c("result bind", dict(o=ResT(), f=FR), lambda o, f: BR.bind(o, f), lambda o, f: f(o.ok) if o.tag == "ok" else o)
c("option return", dict(v=Any, o=OptT()), lambda v, o: (BO.return_(v), BO.return_from(o), BO.zero(), BO.run(o)), lambda v, o: (Some(v), o, Nothing, o))
c("result return", dict(v=Any, o=ResT()), lambda v, o: (BR.return_(v), BR.return_from(o), BR.zero(), BR.run(o)), lambda v, o: (Ok(v), o, Ok(None), o))
c("option combine", dict(a=OptT(), b=OptT()), lambda a, b: BO.combine(a, b), lambda a, b: b if a.tag == "some" else Nothing)
c("result combine", dict(a=ResT(), b=ResT()), lambda a, b: BR.combine(a, b), lambda a, b: b if a.tag == "ok" else a)
c("delay", dict(f=FO, g=FR), lambda f, g: (BO.delay(f), BR.delay(g)), lambda f, g: (f(), g()))
BS = seq_effect[object]()
c("seq bind", dict(xs=SeqT(), f=FunT(SeqT())), lambda xs, f: tuple(BS.bind(xs, f)), lambda xs, f: s_flat(xs, f))
c("seq return", dict(v=Any, xs=SeqT()), lambda v, xs: (tuple(BS.return_(v)), tuple(BS.return_from(xs)), tuple(BS.zero()), tuple(BS.run(xs))), lambda v, xs: ((v,), xs, (), xs))
c("seq combine", dict(xs=SeqT(), ys=SeqT()), lambda xs, ys: tuple(BS.combine(xs, ys)), lambda xs, ys: s_flat((xs, ys), lambda zs: zs))
c("seq delay", dict(f=FunT(SeqT())), lambda f: tuple(BS.delay(f)), lambda f: f())


def s_flat(xs, f):
    out = []
    for x in xs:
        for y in f(x):
            out.append(y)
    return tuple(out)

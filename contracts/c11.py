"""C11: AsyncSeq operations.  The asynchronous source suspends before each element; suspensions, pulls, callbacks and delivered
elements are events, and the consumer may stop at any point."""
from expression import Nothing, Some
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq
from expression.core import pipe
from pv.lang import Any, Bool, FunT, Int, IntT, Key, OptT, SeqT, ask, contract, emit
from contracts.util import Suspend, drive, outcome

P = "C11"
F, PR, FO, NAT = FunT(Any), FunT(Bool), FunT(OptT()), IntT(0)
PULL, PULLI, PULLK = FunT(OptT()), FunT(OptT(Int)), FunT(OptT(Key))


class ASrc:
    """an asynchronous source: each element is awaited"""

    def __init__(self, pull):
        self.pull = pull

    async def __aiter__(self):
        while True:
            await Suspend("source")
            o = self.pull()
            if o.tag != "some":
                return
            yield o.some


async def consume(it):
    it = it.__aiter__()
    while ask("more"):
        try:
            x = await it.__anext__()
        except StopAsyncIteration:
            emit("end")
            return
        emit("got", x)


def run(it):
    emit("built")
    drive(consume(it))


async def awaited(coro):
    return await coro


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def lazy(name, args, forms, gen, pull=PULL, **k):
    for fn, f in forms.items():
        c(f"{name} ({fn})", dict(pull=pull, **args), lambda pull, *a, f=f: run(f(ASrc(pull), *a)), lambda pull, *a: run(gen(ASrc(pull), *a)), **k)


def value(name, args, forms, ghost, pull=PULL, **k):
    for fn, f in forms.items():
        c(f"{name} ({fn})", dict(pull=pull, **args), lambda pull, *a, f=f: outcome(lambda: drive(f(ASrc(pull), *a))),
          lambda pull, *a: outcome(lambda: drive(ghost(ASrc(pull), *a))), **k)


def meth(f):
    """operations of the class are coroutines that give the new sequence; building it reads nothing"""
    return lambda s, *a: drive(f(AsyncSeq(s), *a))


async def g_id(xs):
    async for x in xs:
        yield x


async def g_map(xs, f):
    async for x in xs:
        yield f(x)


async def g_filter(xs, f):
    async for x in xs:
        if f(x):
            yield x


async def g_choose(xs, f):
    async for x in xs:
        o = f(x)
        if o.tag == "some":
            yield o.some


async def g_collect(xs, pull2):
    async for x in xs:
        async for y in ASrc(lambda: pull2(x)):
            yield y


async def g_concat(xs, pull2):
    async for x in g_map(xs, lambda x: ASrc(lambda: pull2(x))):
        async for y in x:
            yield y


async def g_append(xs, ys):
    async for x in xs:
        yield x
    async for y in ys:
        yield y


async def g_scan(xs, f, s):
    yield s
    async for x in xs:
        s = f(s, x)
        yield s


async def g_take(xs, n):
    if n > 0:
        i = 0
        async for x in xs:
            i += 1
            yield x
            if i == n:
                return


async def g_skip(xs, n):
    i = 0
    async for x in xs:
        if i >= n:
            yield x
        i += 1


async def g_tail(xs):
    i = 0
    async for x in xs:
        if i >= 1:
            yield x
        i = 1


async def g_of(xs):
    for x in xs:
        yield x


lazy("seq", {}, dict(AsyncSeq=lambda s: AsyncSeq(s)), g_id)
lazy("map", dict(f=F), dict(method=meth(lambda s, f: s.map(f)), module=lambda s, f: asyncseq.map(f)(s), pipe=lambda s, f: pipe(s, asyncseq.map(f))), g_map)
lazy("filter", dict(f=PR), dict(method=meth(lambda s, f: s.filter(f)), module=lambda s, f: asyncseq.filter(f)(s)), g_filter)
lazy("choose", dict(f=FO), dict(method=meth(lambda s, f: s.choose(f)), module=lambda s, f: asyncseq.choose(f)(s)), g_choose)
lazy("collect", dict(q=PULL), dict(method=meth(lambda s, q: s.collect(lambda x: ASrc(lambda: q(x)))), module=lambda s, q: asyncseq.collect(lambda x: ASrc(lambda: q(x)))(s)), g_collect)
lazy("concat", dict(q=PULL), dict(method=lambda s, q: drive(AsyncSeq(g_map(s, lambda x: ASrc(lambda: q(x)))).concat())), g_concat)
lazy("scan", dict(f=F, s=Any), dict(method=lambda s, f, i: AsyncSeq(s).scan(f, i)), g_scan)
lazy("take", dict(n=NAT), dict(method=meth(lambda s, n: s.take(n))), g_take)
lazy("skip", dict(n=NAT), dict(method=meth(lambda s, n: s.skip(n))), g_skip)
lazy("tail", {}, dict(method=meth(lambda s: s.tail())), g_tail)
c("append", dict(p=PULL, q=PULL), lambda p, q: run(asyncseq.append(ASrc(q))(ASrc(p))), lambda p, q: run(g_append(ASrc(p), ASrc(q))))
c("empty", {}, lambda: (run(asyncseq.empty()), run(AsyncSeq.empty()))[0], lambda: (run(g_of(())), run(g_of(())))[0])
c("repeat", dict(x=Any, n=NAT), lambda x, n: run(asyncseq.repeat(x, n)), lambda x, n: run(g_of(x for _ in range(n))))
c("range", dict(a=Int, b=Int), lambda a, b: run(asyncseq.range(a, b)), lambda a, b: run(g_of(range(a, b))))
c("range method", dict(a=Int), lambda a: run(AsyncSeq.range(a)), lambda a: run(g_of(range(a))))
c("range step", dict(a=Int, b=Int), lambda a, b: run(AsyncSeq.range(a, b, 2)), lambda a, b: run(g_of(range(a, b, 2))))
lazy("map then filter then take", dict(f=F, p=PR, n=NAT), dict(mixed=lambda s, f, p, n: drive(AsyncSeq(pipe(s, asyncseq.map(f), asyncseq.filter(p))).take(n))),
     lambda s, f, p, n: g_take(g_filter(g_map(s, f), p), n))


# ---- values
async def v_fold(xs, f, s):
    async for x in xs:
        s = f(s, x)
    return s


async def v_fold_back(xs, f, s):
    ys = []
    async for x in xs:
        ys.append(x)
    i = len(ys) - 1
    while i >= 0:
        s = f(ys[i], s)
        i -= 1
    return s


async def v_head(xs):
    async for x in xs:
        return x
    raise ValueError


async def v_length(xs):
    n = 0
    async for _ in xs:
        n += 1
    return n


async def v_sum(xs):
    t = 0
    async for x in xs:
        t = t + x
    return t


async def v_max(xs):
    ys = []
    async for x in xs:
        ys.append(x)
    if len(ys) == 0:
        raise ValueError
    it = iter(ys)
    b = next(it)
    for x in it:
        if x > b:
            b = x
    return b


async def v_min(xs):
    ys = []
    async for x in xs:
        ys.append(x)
    if len(ys) == 0:
        raise ValueError
    it = iter(ys)
    b = next(it)
    for x in it:
        if x < b:
            b = x
    return b


value("fold", dict(f=F, s=Any), dict(method=lambda s, f, i: AsyncSeq(s).fold(f, i)), v_fold)
value("fold_back", dict(f=F, s=Any), dict(method=lambda s, f, i: AsyncSeq(s).fold_back(f, i)), v_fold_back)
value("head", {}, dict(method=lambda s: AsyncSeq(s).head()), v_head)
value("length", {}, dict(method=lambda s: AsyncSeq(s).length()), v_length)
value("sum", {}, dict(method=lambda s: AsyncSeq(s).sum()), v_sum, pull=PULLI)
value("max", {}, dict(method=lambda s: AsyncSeq(s).max()), v_max, pull=PULLK)
value("min", {}, dict(method=lambda s: AsyncSeq(s).min()), v_min, pull=PULLK)

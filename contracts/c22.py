"""C22: tailrec.  The body is the most general one: it observes its arguments, then returns any value, raises, or makes any tail call."""
from expression import TailCall, tailrec, tailrec_async
from pv.lang import Any, Bool, FunT, OneOf, OptT, SeqT, ask, contract, emit, fresh

P = "C22"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


RET = FunT(OneOf(Any, OptT()))


def body(step):
    def f(*args, **kw):
        emit("step", args, tuple(kw.items()))
        if ask("tail call"):
            if ask("keywords"):
                return TailCall(*fresh(SeqT()), key=fresh(Any))
            return TailCall(*fresh(SeqT()))
        return step()
    return f


def s_run(step, args, kw):
    """the plain recursion, as the mathematical iteration it denotes"""
    while True:
        emit("step", args, kw)
        if not ask("tail call"):
            return step()
        if ask("keywords"):
            args = fresh(SeqT())
            kw = (("key", fresh(Any)),)
        else:
            args = fresh(SeqT())
            kw = ()


c("tailrec", dict(xs=SeqT(), step=RET), lambda xs, step: tailrec(body(step))(*xs), lambda xs, step: s_run(step, xs, ()))
c("tailrec keywords", dict(xs=SeqT(), k=Any, step=RET), lambda xs, k, step: tailrec(body(step))(*xs, key=k),
  lambda xs, k, step: s_run(step, xs, (("key", k),)))
c("tailrec fixed arity", dict(n=Any, a=Any, step=RET), lambda n, a, step: tailrec(body2(step))(n, a), lambda n, a, step: s_run2(step, n, a))
c("tailrec called twice", dict(n=Any, a=Any, step=RET), lambda n, a, step: (lambda f: (f(n, a), f(a, n)))(tailrec(body2(step))),
  lambda n, a, step: (s_run2(step, n, a), s_run2(step, a, n)))
c("plain results", dict(v=OneOf(Any, OptT())), lambda v: tailrec(lambda x: x)(v), lambda v: v)


def body2(step):
    def f(n, acc):
        emit("step", n, acc)
        if ask("tail call"):
            return TailCall(fresh(Any), acc=fresh(Any))
        return step()
    return f


def s_run2(step, n, acc):
    while True:
        emit("step", n, acc)
        if not ask("tail call"):
            return step()
        n = fresh(Any)
        acc = fresh(Any)


# a body may return one and the same tail call again and again
def body_same(step, n, acc):
    again = TailCall(n, acc=acc)

    def f(n, acc):
        emit("step", n, acc)
        return again if ask("tail call") else step()
    return f


def s_same(step, n, acc):
    while True:
        emit("step", n, acc)
        if not ask("tail call"):
            return step()


c("one tail call returned again", dict(n=Any, a=Any, step=RET), lambda n, a, step: tailrec(body_same(step, n, a))(n, a), lambda n, a, step: s_same(step, n, a))


async def as_coroutine(f, n, a):
    return f(n, a)


c("one tail call returned again, async", dict(n=Any, a=Any, step=RET),
  lambda n, a, step: (lambda f: drive(tailrec_async(lambda n, acc: as_coroutine(f, n, acc))(n, a)))(body_same(step, n, a)), lambda n, a, step: s_same(step, n, a))


# ---- the async form: the body suspends any number of times
class Suspend:
    def __init__(self, v):
        self.v = v

    def __await__(self):
        return (yield self.v)


def abody(step):
    async def f(*args, **kw):
        emit("step", args, tuple(kw.items()))
        while ask("suspend"):
            emit("resumed", await Suspend(fresh(Any)))
        if ask("tail call"):
            if ask("keywords"):
                return TailCall(*fresh(SeqT()), key=fresh(Any))
            return TailCall(*fresh(SeqT()))
        return step()
    return f


def drive(coro):
    """a minimal event loop: resumes the coroutine with arbitrary values until it finishes"""
    v = None
    while True:
        try:
            x = coro.send(v)
        except StopIteration as e:
            return e.value
        emit("suspended", x)
        v = fresh(Any)


def s_arun(step, args, kw):
    while True:
        emit("step", args, kw)
        while ask("suspend"):
            emit("suspended", fresh(Any))
            emit("resumed", fresh(Any))
        if not ask("tail call"):
            return step()
        if ask("keywords"):
            args = fresh(SeqT())
            kw = (("key", fresh(Any)),)
        else:
            args = fresh(SeqT())
            kw = ()


c("tailrec_async", dict(xs=SeqT(), step=RET), lambda xs, step: drive(tailrec_async(abody(step))(*xs)), lambda xs, step: s_arun(step, xs, ()))
c("tailrec_async keywords", dict(xs=SeqT(), k=Any, step=RET), lambda xs, k, step: drive(tailrec_async(abody(step))(*xs, key=k)),
  lambda xs, k, step: s_arun(step, xs, (("key", k),)))

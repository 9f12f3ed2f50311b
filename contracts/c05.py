"""C05: pipe, compose, curry and flip."""
from expression import compose, curry, curry_flip, flip, fst, identity, pipe, pipe2, pipe3, snd, Some, Ok
from expression.collections import Block, Seq
from expression.core.compose import starcompose
from expression.core.curry import pipeable
from expression.core.misc import starid
from expression.core.pipe import starpipe
from pv.lang import Any, Bool, FunT, FunsT, OneOf, OptT, ResT, SeqT, TupT, contract, emit

P = "C05"
V = OneOf(Any, OptT())
F = FunT()
FS = FunsT()


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


# ---- pipe / compose for any number of functions
def s_pipe(v, fs):
    for f in fs:
        v = f(v)
    return v


c("pipe", dict(v=V, fs=FS), lambda v, fs: pipe(v, *fs), s_pipe)
c("compose", dict(v=V, fs=FS), lambda v, fs: compose(*fs)(v), s_pipe)
c("compose is lazy", dict(fs=FS), lambda fs: callable(compose(*fs)), lambda fs: True)
c("compose reuse", dict(v=Any, w=Any, f=F, g=F), lambda v, w, f, g: (lambda h: (h(v), h(w)))(compose(f, g)),
  lambda v, w, f, g: (g(f(v)), g(f(w))))
c("pipe f", dict(v=V, f=F), lambda v, f: pipe(v, f), lambda v, f: f(v))
c("pipe f g", dict(v=V, f=F, g=F), lambda v, f, g: pipe(v, f, g), lambda v, f, g: g(f(v)))
c("pipe f g h", dict(v=V, f=F, g=F, h=F), lambda v, f, g, h: pipe(v, f, g, h), lambda v, f, g, h: h(g(f(v))))
c("compose associative", dict(v=Any, f=F, g=F, h=F), lambda v, f, g, h: compose(compose(f, g), h)(v), lambda v, f, g, h: compose(f, compose(g, h))(v))
c("Option.pipe some", dict(v=Any, fs=FS), lambda v, fs: Some(v).pipe(*fs), lambda v, fs: s_pipe(Some(v), fs))
c("Option.pipe", dict(o=OptT(), fs=FS), lambda o, fs: o.pipe(*fs), lambda o, fs: s_pipe(o, fs))
c("Result.pipe", dict(r=ResT(), fs=FS), lambda r, fs: r.pipe(*fs), lambda r, fs: s_pipe(r, fs))
c("Block.pipe", dict(xs=SeqT(), fs=FS), lambda xs, fs: Block(xs).pipe(tuple, *fs), s_pipe)
c("Seq.pipe", dict(xs=SeqT(), fs=FS), lambda xs, fs: Seq(xs).pipe(tuple, *fs), s_pipe)

# ---- pipe2, pipe3
FF = FunT(F)
FFF = FunT(FF)


def s_pipe2(a, b, f, fs):
    return s_pipe(f(a)(b), fs)


c("pipe2", dict(a=V, b=V, f=FF, fs=FS), lambda a, b, f, fs: pipe2((a, b), f, *fs), s_pipe2)
c("pipe2 none", dict(a=V, b=V), lambda a, b: pipe2((a, b)), lambda a, b: (a, b))
c("pipe3", dict(a=V, b=V, d=V, f=FFF, fs=FS), lambda a, b, d, f, fs: pipe3((a, b, d), f, *fs), lambda a, b, d, f, fs: s_pipe(f(a)(b)(d), fs))
c("pipe3 none", dict(a=V, b=V, d=V), lambda a, b, d: pipe3((a, b, d)), lambda a, b, d: (a, b, d))

# ---- starpipe, starcompose
FSS = FunsT(SeqT())


def s_star(xs, fs):
    for f in fs:
        xs = f(*xs)
    return xs


c("starpipe", dict(xs=SeqT(), fs=FSS), lambda xs, fs: starpipe(xs, *fs), s_star)
c("starcompose", dict(xs=SeqT(), fs=FSS), lambda xs, fs: starcompose(*fs)(xs), s_star)
c("starpipe f", dict(a=V, b=V, f=F), lambda a, b, f: starpipe((a, b), f), lambda a, b, f: f(a, b))
c("starpipe f g", dict(a=V, f=FunT(TupT(Any, Any)), g=F), lambda a, f, g: starpipe((a,), f, g), lambda a, f, g: g(*f(a)))
c("starpipe none", dict(xs=SeqT()), lambda xs: starpipe(xs), lambda xs: xs)

# ---- identities and projections
c("identity", dict(v=V), lambda v: identity(v), lambda v: v)
c("starid", dict(xs=SeqT()), lambda xs: starid(*xs), lambda xs: xs)
c("starid 2", dict(a=V, b=V), lambda a, b: starid(a, b), lambda a, b: (a, b))
c("fst", dict(a=V, b=V), lambda a, b: fst((a, b)), lambda a, b: a)
c("snd", dict(a=V, b=V), lambda a, b: snd((a, b)), lambda a, b: b)
c("flip", dict(a=V, b=V, f=F), lambda a, b, f: flip(f)(b, a), lambda a, b, f: f(a, b))
c("flip twice", dict(a=V, b=V, f=F), lambda a, b, f: flip(flip(f))(a, b), lambda a, b, f: f(a, b))

# ---- curry: any function, staged application equals the full call
c("curry 0", dict(xs=SeqT(), f=F), lambda xs, f: curry(0)(f)(*xs), lambda xs, f: f(*xs))
c("curry 1", dict(a=V, xs=SeqT(), f=F), lambda a, xs, f: curry(1)(f)(a)(*xs), lambda a, xs, f: f(a, *xs))
c("curry 2", dict(a=V, b=V, xs=SeqT(), f=F), lambda a, b, xs, f: curry(2)(f)(a)(b)(*xs), lambda a, b, xs, f: f(a, b, *xs))
c("curry 3", dict(a=V, b=Any, d=Any, xs=SeqT(), f=F), lambda a, b, d, xs, f: curry(3)(f)(a)(b)(d)(*xs), lambda a, b, d, xs, f: f(a, b, d, *xs))
c("curry 4", dict(a=V, b=Any, d=Any, e=Any, xs=SeqT(), f=F), lambda a, b, d, e, xs, f: curry(4)(f)(a)(b)(d)(e)(*xs),
  lambda a, b, d, e, xs, f: f(a, b, d, e, *xs))
c("curry 1 keywords", dict(a=V, b=V, k=V, f=F), lambda a, b, k, f: curry(1)(f)(a)(b, key=k, other=a), lambda a, b, k, f: f(a, b, key=k, other=a))
c("curry 0 keywords", dict(a=V, k=V, f=F), lambda a, k, f: curry(0)(f)(a, key=k), lambda a, k, f: f(a, key=k))


def stages(g, a, b, d, e):
    """one partial application used twice, interleaved with another"""
    h = g(a)
    i = g(b)
    r1 = h(d)
    r2 = i(e)
    r3 = h(e)
    return (r1, r2, r3)


c("curry partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F), lambda a, b, d, e, f: stages(curry(1)(f), a, b, d, e),
  lambda a, b, d, e, f: (f(a, d), f(b, e), f(a, e)))
c("curry2 partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F), lambda a, b, d, e, f: (lambda h: (h(b)(e), h(d)(e), h(b)(d)))(curry(2)(f)(a)),
  lambda a, b, d, e, f: (f(a, b, e), f(a, d, e), f(a, b, d)))

# ---- curry_flip: the curried arguments come last
c("curry_flip 0", dict(xs=SeqT(), f=F), lambda xs, f: curry_flip(0)(f)(*xs), lambda xs, f: f(*xs))
c("curry_flip 1", dict(a=V, xs=SeqT(), f=F), lambda a, xs, f: curry_flip(1)(f)(*xs)(a), lambda a, xs, f: f(a, *xs))
c("curry_flip 2", dict(a=V, b=V, xs=SeqT(), f=F), lambda a, b, xs, f: curry_flip(2)(f)(*xs)(a)(b), lambda a, b, xs, f: f(a, b, *xs))
c("curry_flip 3", dict(a=V, b=Any, d=Any, xs=SeqT(), f=F), lambda a, b, d, xs, f: curry_flip(3)(f)(*xs)(a)(b)(d), lambda a, b, d, xs, f: f(a, b, d, *xs))
c("curry_flip 4", dict(a=V, b=Any, d=Any, e=Any, xs=SeqT(), f=F), lambda a, b, d, e, xs, f: curry_flip(4)(f)(*xs)(a)(b)(d)(e),
  lambda a, b, d, e, xs, f: f(a, b, d, e, *xs))
c("curry_flip 1 keywords", dict(a=V, b=V, k=V, f=F), lambda a, b, k, f: curry_flip(1)(f)(b, key=k)(a), lambda a, b, k, f: f(a, b, key=k))
c("curry_flip 2 keywords", dict(a=V, b=V, d=Any, k=V, f=F), lambda a, b, d, k, f: curry_flip(2)(f)(d, key=k)(a)(b), lambda a, b, d, k, f: f(a, b, d, key=k))
c("curry_flip partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F), lambda a, b, d, e, f: stages(curry_flip(1)(f), a, b, d, e),
  lambda a, b, d, e, f: (f(d, a), f(e, b), f(e, a)))
c("curry_flip keywords, partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F), lambda a, b, d, e, f: stages(lambda g: curry_flip(1)(f)(key=g), a, b, d, e),
  lambda a, b, d, e, f: (f(d, key=a), f(e, key=b), f(e, key=a)))
c("curry_flip keywords of one function, partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F),
  lambda a, b, d, e, f: (lambda h: stages(lambda g: h(key=g), a, b, d, e))(curry_flip(1)(f)), lambda a, b, d, e, f: (f(d, key=a), f(e, key=b), f(e, key=a)))
c("curry_flip different keywords, partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F),
  lambda a, b, d, e, f: (lambda h: (lambda p, q, r: (p(d), q(e), r(d), p(e)))(h(key=a), h(b, other=b), h()))(curry_flip(1)(f)),
  lambda a, b, d, e, f: (f(d, key=a), f(e, b, other=b), f(d), f(e, key=a)))
c("curry different keywords, partial reuse", dict(a=Any, b=Any, d=Any, e=Any, f=F),
  lambda a, b, d, e, f: (lambda h: (lambda p, q: (p(d, key=a), q(e, other=b), p(e), q(d, key=d)))(h(a), h(b)))(curry(1)(f)),
  lambda a, b, d, e, f: (f(a, d, key=a), f(b, e, other=b), f(a, e), f(b, d, key=d)))
c("pipeable", dict(a=V, xs=SeqT(), k=V, f=F), lambda a, xs, k, f: pipeable(f, *xs, key=k)(a), lambda a, xs, k, f: f(a, *xs, key=k))
c("pipeable none", dict(a=V, f=F), lambda a, f: pipe(a, pipeable(f)), lambda a, f: f(a))

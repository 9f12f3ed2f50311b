"""C16: pipelines, sequence and traverse."""
from expression import Error, Nothing, Ok, Some
from expression.collections import Block
from expression.extra.option import pipeline as opipe
from expression.extra.result import pipeline as rpipe, sequence, traverse
from pv.lang import Any, FunT, FunsT, OptT, ResT, SeqT, contract, emit

P = "C16"
FO, FR = FunT(OptT()), FunT(ResT())
FSO, FSR = FunsT(OptT()), FunsT(ResT())


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def s_opipe(v, fs):
    for f in fs:
        o = f(v)
        if o.tag != "some":
            return Nothing
        v = o.some
    return Some(v)


def s_rpipe(v, fs):
    for f in fs:
        o = f(v)
        if o.tag != "ok":
            return o
        v = o.ok
    return Ok(v)


c("option pipeline", dict(v=Any, fs=FSO), lambda v, fs: opipe(*fs)(v), s_opipe, secs=20)
c("result pipeline", dict(v=Any, fs=FSR), lambda v, fs: rpipe(*fs)(v), s_rpipe, secs=20)


# pipelines of any length, by induction over the fold: functools.reduce(step, fns, base) builds base for no function and
# step(pipeline of the first n, f) for n + 1.  `reduce` is replaced by a recorder, and base, step and the order of the
# functions are verified for an arbitrary pipeline of n functions `acc` and an arbitrary f.
def recorder(fn, xs, init):
    return (fn, tuple(xs), init)


def parts(rec, acc, f, v):
    fn, xs, init = rec
    return (xs, init(v), fn(acc, f)(v))


c("option pipeline induction", dict(v=Any, fs=FSO, acc=FO, f=FO), lambda v, fs, acc, f: parts(opipe(*fs), acc, f, v),
  lambda v, fs, acc, f: (fs, Some(v), s_opipe(v, (acc, f))), need=[("expression.extra.option.pipeline", "reduce")], no_native=True,
  overrides={("expression.extra.option.pipeline", "reduce"): recorder}, assume=["functools.reduce is the left fold (induction principle for pipelines of any length)"])
c("result pipeline induction", dict(v=Any, fs=FSR, acc=FR, f=FR), lambda v, fs, acc, f: parts(rpipe(*fs), acc, f, v),
  lambda v, fs, acc, f: (fs, Ok(v), s_rpipe(v, (acc, f))), need=[("expression.extra.result.pipeline", "reduce")], no_native=True,
  overrides={("expression.extra.result.pipeline", "reduce"): recorder}, assume=["functools.reduce is the left fold (induction principle for pipelines of any length)"])
c("option pipeline empty", dict(v=Any), lambda v: opipe()(v), lambda v: Some(v))
c("result pipeline empty", dict(v=Any), lambda v: rpipe()(v), lambda v: Ok(v))
for n in (1, 2, 3, 4):
    ns = ["f", "g", "h", "i"][:n]
    c(f"option pipeline of {n}", dict(v=Any, **{x: FO for x in ns}), (lambda v, *fs: opipe(*fs)(v)), lambda v, *fs: s_opipe(v, fs))
    c(f"result pipeline of {n}", dict(v=Any, **{x: FR for x in ns}), (lambda v, *fs: rpipe(*fs)(v)), lambda v, *fs: s_rpipe(v, fs))
c("pipeline reuse", dict(v=Any, w=Any, f=FO, g=FO), lambda v, w, f, g: (lambda p: (p(v), p(w)))(opipe(f, g)), lambda v, w, f, g: (s_opipe(v, (f, g)), s_opipe(w, (f, g))))
c("result pipeline reuse", dict(v=Any, w=Any, f=FR, g=FR), lambda v, w, f, g: (lambda p: (p(v), p(w)))(rpipe(f, g)), lambda v, w, f, g: (s_rpipe(v, (f, g)), s_rpipe(w, (f, g))))
c("pipeline of pipelines", dict(v=Any, f=FO, g=FO, h=FO), lambda v, f, g, h: opipe(opipe(f, g), h)(v), lambda v, f, g, h: s_opipe(v, (f, g, h)))
c("option pipeline repeating a function", dict(v=Any, f=FO, g=FO), lambda v, f, g: (opipe(f, g, f)(v), opipe(f, f)(v)), lambda v, f, g: (s_opipe(v, (f, g, f)), s_opipe(v, (f, f))))
c("result pipeline repeating a function", dict(v=Any, f=FR, g=FR), lambda v, f, g: (rpipe(f, g, f)(v), rpipe(f, f)(v)), lambda v, f, g: (s_rpipe(v, (f, g, f)), s_rpipe(v, (f, f))))
c("pipeline construction calls nothing", dict(f=FO, g=FR), lambda f, g: (opipe(f, f), rpipe(g, g), None)[-1], lambda f, g: None)


# ---- sequence and traverse: left to right, stopping at the first Error
def s_sequence(xs):
    out = []
    for r in xs:
        if r.tag != "ok":
            return r
        out.append(r.ok)
    return Ok(Block(out))


def s_traverse(f, xs):
    out = []
    for x in xs:
        r = f(x)
        if r.tag != "ok":
            return r
        out.append(r.ok)
    return Ok(Block(out))


c("sequence", dict(xs=SeqT(ResT())), lambda xs: sequence(Block(xs)), s_sequence)
c("traverse", dict(xs=SeqT(), f=FR), lambda xs, f: traverse(f, Block(xs)), lambda xs, f: s_traverse(f, xs))
c("sequence empty", dict(), lambda: sequence(Block()), lambda: Ok(Block()))

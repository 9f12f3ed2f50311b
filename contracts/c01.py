"""C01: Option combinators."""
from expression import Nothing, Option, Some, default_arg, option, pipe
from pv.lang import Any, Bool, FunT, FunsT, OneOf, OptT, ResT, SeqT, contract, emit

from .util import vo

P = "C01"
V = OneOf(Any, OptT())          # any payload, including a nested option
O = OptT(V)
F = FunT()


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


# ---- construction
c("Some", dict(v=V), lambda v: vo(Some(v)), lambda v: ("some", v))
c("Option.Some", dict(v=V), lambda v: vo(Option.Some(v)), lambda v: ("some", v))
c("Nothing", {}, lambda: vo(Nothing), lambda: ("none",))
c("Option.Nothing", {}, lambda: vo(Option.Nothing()), lambda: ("none",))


# ---- predicates
def s_some(o):
    return o.tag == "some"


def s_none(o):
    return o.tag == "none"


c("is_some", dict(o=O), lambda o: o.is_some(), s_some)
c("is_none", dict(o=O), lambda o: o.is_none(), s_none)
c("option.is_some", dict(o=O), lambda o: option.is_some(o), s_some)
c("option.is_none", dict(o=O), lambda o: option.is_none(o), s_none)


# ---- map and friends
def s_map(o, f):
    return ("some", f(o.some)) if o.tag == "some" else ("none",)


c("map", dict(o=O, f=F), lambda o, f: vo(o.map(f)), s_map)
c("option.map", dict(o=O, f=F), lambda o, f: vo(option.map(f)(o)), s_map)
c("pipe option.map", dict(o=O, f=F), lambda o, f: vo(o.pipe(option.map(f))), s_map)
c("map reuse", dict(o=O, p=O, f=F), lambda o, p, f: (lambda g: (vo(g(o)), vo(g(p))))(option.map(f)),
  lambda o, p, f: (s_map(o, f), s_map(p, f)))
c("map returning options", dict(o=O, f=FunT(OptT())), lambda o, f: (lambda r: (r.tag, vo(r.some) if r.tag == "some" else None))(o.map(f)),
  lambda o, f: ("some", vo(f(o.some))) if o.tag == "some" else ("none", None))


def s_map2(o, p, f):
    return ("some", f(o.some, p.some)) if o.tag == "some" and p.tag == "some" else ("none",)


c("map2", dict(o=O, p=O, f=F), lambda o, p, f: vo(o.map2(f, p)), s_map2)
c("option.map2", dict(o=O, p=O, f=F), lambda o, p, f: vo(option.map2(f)(o)(p)), s_map2)


def s_apply(o, t, f):
    return ("some", f(o.some)) if o.tag == "some" and t else ("none",)


c("apply", dict(o=O, t=Bool, f=F), lambda o, t, f: vo(o.apply(Some(f) if t else Nothing)), s_apply)
c("option.apply", dict(o=O, t=Bool, f=F), lambda o, t, f: vo(option.apply(Some(f) if t else Nothing)(o)), s_apply)


def s_starmap(t, xs, f):
    return ("some", f(*xs)) if t else ("none",)


c("starmap", dict(t=Bool, xs=SeqT(), f=F), lambda t, xs, f: vo((Some(xs) if t else Nothing).starmap(f)), s_starmap)
c("option.starmap", dict(t=Bool, xs=SeqT(), f=F), lambda t, xs, f: vo(option.starmap(f)(Some(xs) if t else Nothing)), s_starmap)


# ---- bind
def s_bind(o, f):
    return vo(f(o.some)) if o.tag == "some" else ("none",)


FO = FunT(O)
c("bind", dict(o=O, f=FO), lambda o, f: vo(o.bind(f)), s_bind)
c("option.bind", dict(o=O, f=FO), lambda o, f: vo(option.bind(f)(o)), s_bind)
c("pipe option.bind", dict(o=O, f=FO, g=FO), lambda o, f, g: vo(pipe(o, option.bind(f), option.bind(g))),
  lambda o, f, g: _bind2(o, f, g))


def _bind2(o, f, g):
    if o.tag != "some":
        return ("none",)
    r = f(o.some)
    return vo(g(r.some)) if r.tag == "some" else ("none",)


# monad laws
c("left identity", dict(v=V, f=FO), lambda v, f: vo(Some(v).bind(f)), lambda v, f: vo(f(v)))
c("right identity", dict(o=O), lambda o: vo(o.bind(Some)), lambda o: vo(o))
c("associativity", dict(o=O, f=FO, g=FO), lambda o, f, g: vo(o.bind(lambda x: f(x).bind(g))), lambda o, f, g: _bind2(o, f, g))


# ---- alternatives and defaults
def s_or(o, p):
    return vo(o) if o.tag == "some" else vo(p)


c("or_else", dict(o=O, p=O), lambda o, p: vo(o.or_else(p)), s_or)
c("option.or_else", dict(o=O, p=O), lambda o, p: vo(option.or_else(o, p)), s_or)
c("or_else_with", dict(o=O, f=FO), lambda o, f: vo(o.or_else_with(f)), lambda o, f: vo(o) if o.tag == "some" else vo(f()))


def s_def(o, d):
    return o.some if o.tag == "some" else d


c("default_value", dict(o=O, d=V), lambda o, d: o.default_value(d), s_def)
c("option.default_value", dict(o=O, d=V), lambda o, d: option.default_value(d)(o), s_def)
c("default_arg", dict(o=O, d=V), lambda o, d: default_arg(o, d), s_def)
c("default_with", dict(o=O, f=F), lambda o, f: o.default_with(f), lambda o, f: o.some if o.tag == "some" else f())
c("option.default_with", dict(o=O, f=F), lambda o, f: option.default_with(f)(o), lambda o, f: o.some if o.tag == "some" else f())


# ---- filter
def s_filter(o, f):
    if o.tag == "some" and f(o.some):
        return ("some", o.some)
    return ("none",)


c("filter", dict(o=O, f=FunT(Bool)), lambda o, f: vo(o.filter(f)), s_filter)
c("filter truthy", dict(o=O, f=FunT(Any)), lambda o, f: vo(o.filter(f)), s_filter)

# ---- extraction
c("to_list", dict(o=O), lambda o: o.to_list(), lambda o: [o.some] if o.tag == "some" else [])
c("option.to_list", dict(o=O), lambda o: option.to_list(o), lambda o: [o.some] if o.tag == "some" else [])
c("to_seq", dict(o=O), lambda o: tuple(o.to_seq()), lambda o: (o.some,) if o.tag == "some" else ())
c("option.to_seq", dict(o=O), lambda o: tuple(option.to_seq(o)), lambda o: (o.some,) if o.tag == "some" else ())


def s_value(o):
    if o.tag == "some":
        return o.some
    raise ValueError


c("value", dict(o=O), lambda o: o.value, s_value)


# ---- iteration: yields the value once and returns what is sent back; Nothing is the early exit
def iterate(o):
    from expression.core.error import EffectError
    g = iter(o)
    try:
        v = g.send(None)
    except EffectError:
        return ("exit", None)
    emit("yielded", v)
    try:
        w = g.send(emit_fresh())
    except StopIteration as e:
        return ("return", e.value)
    return ("again", w)


def emit_fresh():
    from pv.lang import fresh
    return fresh(Any)


def s_iterate(o):
    if o.tag == "none":
        return ("exit", None)
    emit("yielded", o.some)
    return ("return", emit_fresh())


c("iteration", dict(o=O), iterate, s_iterate)
c("for loop", dict(o=O), lambda o: [x for x in (o if o.tag == "some" else [])], lambda o: [o.some] if o.tag == "some" else [])

# ---- equality
c("eq", dict(o=O, p=O), lambda o, p: o == p, lambda o, p: o.tag == p.tag and (o.tag == "none" or o.some == p.some))
c("eq other", dict(o=O, v=Any), lambda o, v: o == v, lambda o, v: False)

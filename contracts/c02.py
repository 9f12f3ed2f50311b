"""C02: Result combinators."""
from expression import Error, Failure, Ok, Result, Success, Try, pipe, result
from pv.lang import Any, Bool, FunT, OneOf, OptT, ResT, TryT, contract, emit, fresh

from .util import vr

P = "C02"
V = OneOf(Any, ResT())          # any payload, including a nested result
R = ResT(V, V)
RT = OneOf(ResT(V, V), TryT(Any))
F = FunT()
FR = FunT(ResT())


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


# ---- construction
c("Ok", dict(v=V), lambda v: vr(Ok(v)), lambda v: ("ok", v))
c("Error", dict(v=V), lambda v: vr(Error(v)), lambda v: ("error", v))
c("Result.Ok", dict(v=V), lambda v: vr(Result.Ok(v)), lambda v: ("ok", v))
c("Result.Error", dict(v=V), lambda v: vr(Result.Error(v)), lambda v: ("error", v))
c("Success", dict(v=V), lambda v: (vr(Success(v)), type(Success(v)) is Try), lambda v: (("ok", v), True))
c("Failure", dict(v=V), lambda v: (vr(Failure(v)), type(Failure(v)) is Try), lambda v: (("error", v), True))

# ---- predicates
for nm, f in (("is_ok", lambda r: r.is_ok()), ("result.is_ok", lambda r: result.is_ok(r))):
    c(nm, dict(r=RT), f, lambda r: r.tag == "ok")
for nm, f in (("is_error", lambda r: r.is_error()), ("result.is_error", lambda r: result.is_error(r))):
    c(nm, dict(r=RT), f, lambda r: r.tag == "error")


# ---- map and friends
def s_map(r, f):
    return ("ok", f(r.ok)) if r.tag == "ok" else ("error", r.error)


c("map", dict(r=RT, f=F), lambda r, f: vr(r.map(f)), s_map)
c("result.map", dict(r=RT, f=F), lambda r, f: vr(result.map(f)(r)), s_map)
c("pipe result.map", dict(r=RT, f=F), lambda r, f: vr(r.pipe(result.map(f))), s_map)
c("map reuse", dict(r=R, q=ResT(), f=F), lambda r, q, f: (lambda g: (vr(g(r)), vr(g(q))))(result.map(f)),
  lambda r, q, f: (s_map(r, f), s_map(q, f)))


def s_map2(r, q, f):
    if r.tag == "error":
        return ("error", r.error)
    if q.tag == "error":
        return ("error", q.error)
    return ("ok", f(r.ok, q.ok))


c("map2", dict(r=RT, q=ResT(), f=F), lambda r, q, f: vr(r.map2(q, f)), s_map2)
c("result.map2", dict(r=RT, q=ResT(), f=F), lambda r, q, f: vr(result.map2(f)(r)(q)), s_map2)


def s_apply(r, t, e, f):
    if not t:
        return ("error", e)
    return s_map(r, f)


c("apply", dict(r=R, t=Bool, e=Any, f=F), lambda r, t, e, f: vr(r.apply(Ok(f) if t else Error(e))), s_apply)
c("result.apply", dict(r=R, t=Bool, e=Any, f=F), lambda r, t, e, f: vr(result.apply(Ok(f) if t else Error(e))(r)), s_apply)


def s_map_error(r, f):
    return ("ok", r.ok) if r.tag == "ok" else ("error", f(r.error))


c("map_error", dict(r=RT, f=F), lambda r, f: vr(r.map_error(f)), s_map_error)
c("result.map_error", dict(r=RT, f=F), lambda r, f: vr(result.map_error(f)(r)), s_map_error)


# ---- bind
def s_bind(r, f):
    return vr(f(r.ok)) if r.tag == "ok" else ("error", r.error)


def s_bind2(r, f, g):
    if r.tag == "error":
        return ("error", r.error)
    q = f(r.ok)
    return vr(g(q.ok)) if q.tag == "ok" else ("error", q.error)


c("bind", dict(r=RT, f=FunT(R)), lambda r, f: vr(r.bind(f)), s_bind)
c("result.bind", dict(r=RT, f=FunT(R)), lambda r, f: vr(result.bind(f)(r)), s_bind)
c("pipe result.bind", dict(r=RT, f=FR, g=FR), lambda r, f, g: vr(pipe(r, result.bind(f), result.bind(g))), s_bind2)
c("left identity", dict(v=V, f=FR), lambda v, f: vr(Ok(v).bind(f)), lambda v, f: vr(f(v)))
c("right identity", dict(r=RT), lambda r: vr(r.bind(Ok)), lambda r: vr(r))
c("associativity", dict(r=RT, f=FR, g=FR), lambda r, f, g: vr(r.bind(lambda x: f(x).bind(g))), s_bind2)


# ---- filter
def s_filter(r, f, d):
    if r.tag == "error":
        return ("error", r.error)
    return ("ok", r.ok) if f(r.ok) else ("error", d)


def s_filter_with(r, f, d):
    if r.tag == "error":
        return ("error", r.error)
    return ("ok", r.ok) if f(r.ok) else ("error", d(r.ok))


for B in (Bool, Any):
    k = "" if B is Bool else " truthy"
    c("filter" + k, dict(r=RT, f=FunT(B), d=V), lambda r, f, d: vr(r.filter(f, d)), s_filter)
    c("result.filter" + k, dict(r=RT, f=FunT(B), d=V), lambda r, f, d: vr(result.filter(f, d)(r)), s_filter)
    c("filter_with" + k, dict(r=RT, f=FunT(B), d=F), lambda r, f, d: vr(r.filter_with(f, d)), s_filter_with)
    c("result.filter_with" + k, dict(r=RT, f=FunT(B), d=F), lambda r, f, d: vr(result.filter_with(f, d)(r)), s_filter_with)


# ---- swap, alternatives, defaults
def s_swap(r):
    return ("error", r.ok) if r.tag == "ok" else ("ok", r.error)


c("swap", dict(r=RT), lambda r: vr(r.swap()), s_swap)
c("result.swap", dict(r=RT), lambda r: vr(result.swap(r)), s_swap)
c("swap twice", dict(r=RT), lambda r: vr(r.swap().swap()), lambda r: vr(r))


def s_or(r, q):
    return vr(r) if r.tag == "ok" else vr(q)


c("or_else", dict(r=RT, q=R), lambda r, q: vr(r.or_else(q)), s_or)
c("result.or_else", dict(r=RT, q=R), lambda r, q: vr(result.or_else(q)(r)), s_or)


def s_or_with(r, f):
    return vr(r) if r.tag == "ok" else vr(f(r.error))


c("or_else_with", dict(r=RT, f=FR), lambda r, f: vr(r.or_else_with(f)), s_or_with)
c("result.or_else_with", dict(r=RT, f=FR), lambda r, f: vr(result.or_else_with(f)(r)), s_or_with)


def s_def(r, d):
    return r.ok if r.tag == "ok" else d


def s_def_with(r, f):
    return r.ok if r.tag == "ok" else f(r.error)


c("default_value", dict(r=RT, d=V), lambda r, d: r.default_value(d), s_def)
c("result.default_value", dict(r=RT, d=V), lambda r, d: result.default_value(d)(r), s_def)
c("default_with", dict(r=RT, f=F), lambda r, f: r.default_with(f), s_def_with)
c("result.default_with", dict(r=RT, f=F), lambda r, f: result.default_with(f)(r), s_def_with)


def s_merge(r):
    return r.ok if r.tag == "ok" else r.error


c("merge", dict(r=R), lambda r: r.merge(), s_merge)
c("result.merge", dict(r=R), lambda r: result.merge(r), s_merge)


# ---- iteration: yields the value once and returns what is sent back; Error is the early exit carrying itself
def iterate(r):
    from expression.core.error import EffectError
    g = iter(r)
    try:
        v = g.send(None)
    except EffectError as e:
        return ("exit", vr(e.args[0]))
    emit("yielded", v)
    try:
        w = g.send(fresh(Any))
    except StopIteration as e:
        return ("return", e.value)
    return ("again", w)


def s_iterate(r):
    if r.tag == "error":
        return ("exit", ("error", r.error))
    emit("yielded", r.ok)
    return ("return", fresh(Any))


c("iteration", dict(r=R), iterate, s_iterate)

# ---- equality
c("eq", dict(r=R, q=R), lambda r, q: r == q,
  lambda r, q: r.tag == q.tag and (r.ok == q.ok if r.tag == "ok" else r.error == q.error))
c("eq other", dict(r=R, v=Any), lambda r, v: r == v, lambda r, v: False)

"""C15: catch turns exactly the named exceptions into Error."""
from expression import Error, Nothing, Ok, Result
from expression.extra.result import catch
from pv.lang import Any, FunT, OneOf, OptT, ResT, SeqT, TryT, contract, emit

P = "C15"
RET = OneOf(Any, OptT(), ResT(), TryT())
F = FunT(RET)
G = FunT(Any)


class Mine(Exception):
    pass


class Sub(Mine):
    pass


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def lift(r):
    return r if isinstance(r, Result) else Ok(r)


# one literal except clause per class: the specification does not look the class up the way the code does
def s_value(f, xs, k):
    try:
        r = f(*xs, key=k)
    except ValueError as e:
        return Error(e)
    return lift(r)


def s_lookup(f, xs, k):
    try:
        r = f(*xs, key=k)
    except LookupError as e:
        return Error(e)
    return lift(r)


def s_exc(f, xs, k):
    try:
        r = f(*xs, key=k)
    except Exception as e:
        return Error(e)
    return lift(r)


def s_mine(f, xs, k):
    try:
        r = f(*xs, key=k)
    except Mine as e:
        return Error(e)
    return lift(r)


def s_pair(f, xs, k):
    try:
        r = f(*xs, key=k)
    except (ValueError, Mine) as e:
        return Error(e)
    return lift(r)


c("catch ValueError", dict(xs=SeqT(), k=Any, f=F), lambda xs, k, f: catch(exception=ValueError)(f)(*xs, key=k), lambda xs, k, f: s_value(f, xs, k))
c("catch LookupError", dict(xs=SeqT(), k=Any, f=F), lambda xs, k, f: catch(exception=LookupError)(f)(*xs, key=k), lambda xs, k, f: s_lookup(f, xs, k))
c("catch Exception", dict(xs=SeqT(), k=Any, f=F), lambda xs, k, f: catch(exception=Exception)(f)(*xs, key=k), lambda xs, k, f: s_exc(f, xs, k))
c("catch a user class", dict(xs=SeqT(), k=Any, f=F), lambda xs, k, f: catch(exception=Mine)(f)(*xs, key=k), lambda xs, k, f: s_mine(f, xs, k))
c("catch several", dict(xs=SeqT(), k=Any, f=F), lambda xs, k, f: catch(exception=(ValueError, Mine))(f)(*xs, key=k), lambda xs, k, f: s_pair(f, xs, k))
c("catch direct form", dict(xs=SeqT(), k=Any, f=F), lambda xs, k, f: catch(f, exception=ValueError)(*xs, key=k), lambda xs, k, f: s_value(f, xs, k))


# ---- nested use: each layer takes its own class, and a Result made inside passes through
def s_nested(f, x):
    try:
        r = f(x)
    except ValueError as e:
        return Error(e)
    except LookupError as e:
        return Error(e)
    return lift(r)


c("nested", dict(x=Any, f=F), lambda x, f: catch(exception=LookupError)(catch(exception=ValueError)(f))(x), lambda x, f: s_nested(f, x))
c("nested other order", dict(x=Any, f=F), lambda x, f: catch(exception=ValueError)(catch(exception=LookupError)(f))(x), lambda x, f: s_nested(f, x))
c("nested three", dict(x=Any, f=F), lambda x, f: catch(exception=Mine)(catch(exception=LookupError)(catch(exception=ValueError)(f)))(x),
  lambda x, f: s_three(f, x))


def s_three(f, x):
    try:
        r = f(x)
    except (ValueError, LookupError, Mine) as e:
        return Error(e)
    return lift(r)


# ---- the wrapper catches only around its own function
def inner_then(f, g):
    w = catch(exception=ValueError)(f)

    def body(x):
        r = w(x)
        emit("between", r)
        return g(x)
    return body


def s_inner_then(f, g, x):
    try:
        r = f(x)
    except ValueError as e:
        r = Error(e)
    emit("between", lift(r))
    return g(x)


c("only around its own call", dict(x=Any, f=F, g=G), lambda x, f, g: inner_then(f, g)(x), lambda x, f, g: s_inner_then(f, g, x))


# ---- reuse: the second call is not affected by the first
c("called twice", dict(x=Any, y=Any, f=FunT()), lambda x, y, f: (lambda w: (w(x), w(y)))(catch(exception=ValueError)(f)),
  lambda x, y, f: (s_plain(f, x), s_plain(f, y)))


def s_plain(f, x):
    try:
        r = f(x)
    except ValueError as e:
        return Error(e)
    return lift(r)


# ---- bodies raising a given instance: the very object, also for subclasses
def thrower(e):
    def f():
        raise e
    return f


def kept(e, *classes):
    r = catch(exception=classes if len(classes) > 1 else classes[0])(thrower(e))()
    return (r.tag, r.error is e)


def passed(e, cls):
    try:
        catch(exception=cls)(thrower(e))()
    except BaseException as x:
        return x is e
    return False


c("the very object", dict(v=Any), lambda v: (kept(ValueError(v), ValueError), kept(Sub(v), Mine), kept(KeyError(v), LookupError), kept(Sub(v), Exception)),
  lambda v: (("error", True),) * 4)
c("others pass unchanged", dict(v=Any), lambda v: (passed(KeyError(v), ValueError), passed(Mine(v), Sub), passed(TypeError(v), Mine), passed(Exception(v), ValueError)),
  lambda v: (True,) * 4)
c("outside Exception", dict(v=Any), lambda v: (passed(KeyboardInterrupt(v), Exception), passed(SystemExit(v), Exception)), lambda v: (True, True))

"""The contract language.  Pure Python: the same contract modules are read by the verifier (symbolically) and by the
concrete runner (natively, under the repository's own interpreter)."""
from __future__ import annotations

import random

CONTRACTS = []


# ---------------------------------------------------------------- user-level objects of the environment
class UserError(Exception):
    """An exception raised by user code; `n` identifies it."""

    def __init__(self, n=0):
        super().__init__(n)
        self.n = n


class U:
    """An opaque user value of the concrete runner (equality and order by n, truth t; values equal to each other but not
    the same differ in their shade s)."""

    __slots__ = ("n", "s", "t")

    def __init__(self, n, t=True, s=0):
        self.n, self.t, self.s = n, t, s

    def __bool__(self):
        return self.t

    def __eq__(self, o):
        return isinstance(o, U) and o.n == self.n

    def __hash__(self):
        return hash(("U", self.n))

    def __lt__(self, o):
        return self.n < o.n

    def __gt__(self, o):
        return self.n > o.n

    def __le__(self, o):
        return self.n <= o.n

    def __ge__(self, o):
        return self.n >= o.n

    def __repr__(self):
        return f"U({self.n}{chr(39) * self.s})"


# ---------------------------------------------------------------- types of inputs and responses
class Ty:
    def gen(self, r, env):
        raise NotImplementedError


class AnyT(Ty):
    """Any value whatsoever."""

    def gen(self, r, env):
        if ODD[0] and r.random() < 0.5:
            return odd(r)
        k = r.randrange(14)
        if k < 5:
            return U(r.randrange(3), s=r.randrange(2))
        if k < 8:
            return r.randrange(-2, 5)
        if k == 8:
            return None
        if k == 9:
            return False
        if k == 10:
            return r.choice(["", "a", "b"])
        if k == 11:
            return ()
        if k == 12:
            return (r.randrange(3), U(0))
        return True


NAN = float("nan")
ODD = [False]  # the concrete runner draws values that are themselves exceptions, functions, options, results or blocks


def odd(r, d=0):
    from expression import Error, Nothing, Ok, Some
    from expression.collections import Block
    k = r.randrange(9)
    x = odd(r, 1) if d == 0 and r.random() < 0.3 else r.choice([0, None, "a", U(1)])
    if k == 0:
        return UserError(r.randrange(5))
    if k == 1:
        return FunVal(r.randrange(5), FunT(Any))
    if k < 6:
        return (Some(x), Nothing, Ok(x), Error(x))[k - 2]
    if k == 6:
        return Block([x])
    if k == 7:
        return KeyError("k")
    return r.choice([NAN, NAN, float("inf"), 0.0, b"", b"x", (x,), frozenset()])


class IntT(Ty):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def gen(self, r, env):
        lo = (-4 if self.hi is None else min(-4, self.hi - 8)) if self.lo is None else self.lo
        hi = max(lo + 8, 7) if self.hi is None else self.hi
        return r.randint(lo, hi)


class BoolT(Ty):
    def gen(self, r, env):
        return r.random() < 0.6


class KeyT(Ty):
    """A totally ordered value."""

    def __init__(self, shades=2):
        self.shades = shades

    def gen(self, r, env):
        return U(r.randrange(8), s=r.randrange(self.shades))


class AtomT(Ty):
    """A hashable user value."""

    def gen(self, r, env):
        return U(r.randrange(4), s=r.randrange(2))


class NoneT(Ty):
    def gen(self, r, env):
        return None


class ConstT(Ty):
    """One of a finite list of concrete values (case split)."""

    def __init__(self, *vals):
        self.vals = vals

    def gen(self, r, env):
        return r.choice(self.vals)


class OptT(Ty):
    def __init__(self, t=None):
        self.t = t or Any

    def gen(self, r, env):
        from expression import Nothing, Some
        return Nothing if r.random() < 0.4 else Some(self.t.gen(r, env))


class ResT(Ty):
    def __init__(self, t=None, e=None):
        self.t, self.e = t or Any, e or Any

    def gen(self, r, env):
        from expression import Error, Ok
        return Error(self.e.gen(r, env)) if r.random() < 0.4 else Ok(self.t.gen(r, env))


class TryT(ResT):
    def gen(self, r, env):
        from expression import Failure, Success
        return Failure(UserError(r.randrange(4))) if r.random() < 0.4 else Success(self.t.gen(r, env))


class TupT(Ty):
    def __init__(self, *ts):
        self.ts = ts

    def gen(self, r, env):
        return tuple(t.gen(r, env) for t in self.ts)


class SeqT(Ty):
    """A tuple of any length."""

    def __init__(self, t=None):
        self.t = t or Any

    def gen(self, r, env):
        n = r.choice([0, 1, 2, 3, 4, 5, 7] if not BIG[0] else [8, 11, 17, 18, 33, 40, 70, 130])
        old = getattr(env, "last_seq", None)
        if old and old[0] is self.t and r.random() < 0.3:  # nearly the same as the sequence before
            xs = list(old[1])
            k = r.randrange(len(xs) + 1)
            xs[k:k + r.randrange(2)] = [self.t.gen(r, env)] * (r.random() < 0.4)
        else:
            xs = [self.t.gen(r, env) for _ in range(n)]
        if env is not None:
            env.last_seq = (self.t, xs)
        return tuple(xs)


class CharT(Ty):
    """A string of one character."""

    def gen(self, r, env):
        return r.choice("aab0123456789-. \n,(Az\u0663\u00e9")


class StrT(Ty):
    """A string of any length."""

    def __init__(self, alphabet=None):
        self.alphabet = alphabet

    def gen(self, r, env):
        al = self.alphabet or r.choice(["ab", "0123456789", "-.0159 a", "ab(), \n\t", "aAzZ\u00e9\u0663\u00b2", "a\u0663"])
        return "".join(r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 8, 9, 30, 30, 1500])))


class FunT(Ty):
    """An arbitrary user function: every call is an observable event with an arbitrary response."""

    def __init__(self, ret=None, raises=True, arity=None):
        self.ret, self.raises = ret or Any, raises

    def gen(self, r, env):
        return AbsFun(env.hint, self)


class OneOf(Ty):
    def __init__(self, *ts):
        self.ts = ts

    def gen(self, r, env):
        return r.choice(self.ts).gen(r, env)


class FunsT(Ty):
    """A tuple of any length of arbitrary user functions."""

    def __init__(self, ret=None, raises=True):
        self.ret, self.raises = ret or Any, raises

    def gen(self, r, env):
        ft = FunT(self.ret, self.raises)
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 5, 9])):
            out.append(r.choice(out) if out and r.random() < 0.3 else FunVal(r.randrange(1000), ft))
        return tuple(out)


class ObjsT(Ty):
    """A tuple of any length of objects mk(f), each over an arbitrary user function f."""

    def __init__(self, mk, ret=None, raises=True):
        self.mk, self.ret, self.raises = mk, ret or Any, raises

    def gen(self, r, env):
        return tuple(self.mk(f) for f in FunsT(self.ret, self.raises).gen(r, env))


Any = AnyT()
Int = IntT()
Nat = IntT(0)
Bool = BoolT()
Key = KeyT()
MKey = KeyT(1)  # a map's key: which of two equal keys a map keeps is not specified
Atom = AtomT()
Char = CharT()
Str = StrT()


class AbsFun:
    """An abstract user function (native form: asks the environment)."""

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def __call__(self, *args, **kw):
        return CUR[0].event(self.name, args, kw, self.ty)

    def __repr__(self):
        return f"<fun {self.name}>"


class FunVal:
    """One of a sequence of abstract user functions."""

    def __init__(self, n, ty):
        self.n, self.ty = n, ty

    def __call__(self, *args, **kw):
        return CUR[0].event("call", (self,) + args, kw, self.ty)

    def __repr__(self):
        return f"<fun #{self.n}>"


# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(self, prop, name, args, code, spec, **opt):
        self.prop, self.name, self.args, self.code, self.spec, self.opt = prop, name, args, code, spec, opt
        self.functions = opt.get("functions", [])

    def __repr__(self):
        return f"{self.prop}:{self.name}"


def contract(prop, name, args, code, spec, **opt):
    CONTRACTS.append(Contract(prop, name, args, code, spec, **opt))


# environment operations usable in drivers, replaced by the VM / native runner
class Env:
    """emit(tag, value): an observable output; ask(): an arbitrary boolean chosen by the environment."""


def emit(*args):
    return CUR[0].event("emit", args, {}, FunT(NoneT(), raises=False))


def ask(*args):
    return CUR[0].event("ask", args, {}, FunT(Bool, raises=False))


def choose(n, *args):
    """An arbitrary integer in range(n), chosen by the environment."""
    return CUR[0].event(f"choose{n}", args, {}, FunT(ConstT(*range(n)), raises=False))


def fresh(ty, *args):
    """An arbitrary value of the type, chosen by the environment."""
    return CUR[0].event("fresh", args, {}, FunT(ty, raises=False))


def assume(cond):
    """(verifier only) leaves aside the executions where the condition does not hold"""
    raise NotImplementedError


def symbolic():
    """True inside the verifier, False in a concrete run"""
    return False


CUR = [None]
BIG = [False]  # the concrete runner draws large inputs


# ---------------------------------------------------------------- threads
class Sched:
    """A schedule: the k-th switch point goes on with thread to[k] (-1: no switch)."""

    def __init__(self, to=()):
        self.to = to

    @staticmethod
    def random(r):
        if r.random() < 0.6:
            out = [-1] * 60
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                out[int(r.random() ** 1.5 * 40)] = r.randrange(3)
            return Sched(out)
        return Sched([r.choice([-1, -1, 0, 1, 2]) for _ in range(60)])

    def __repr__(self):
        return f"Sched({[(k, j) for k, j in enumerate(self.to) if j >= 0]})"


def interleave(*fs):
    """runs the thunks as threads, under an arbitrary schedule; their outcomes ("ret", value) or ("exc", exception)"""
    from . import nthreads
    return nthreads.run(fs, CUR[0].sched())

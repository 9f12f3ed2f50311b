"""C04: tagged unions: construction, one case, equality, hash, order, frozenness and copies; payloads are arbitrary."""
import copy
import pickle
from typing import Any as TAny, Literal

from expression import Error, Failure, Nothing, Ok, Some, Success, case, tag, tagged_union
from pv.lang import Any, Atom, Bool, FunT, Int, IntT, Key, OneOf, OptT, ResT, SeqT, TupT, contract
from contracts.util import outcome

P = "C04"
K2, K3 = IntT(0, 1), IntT(0, 2)


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


@tagged_union(frozen=True, order=True)
class Shape:
    tag: Literal["circle", "rect", "dot"] = tag()
    circle: TAny = case()
    rect: TAny = case()
    dot: TAny = case()


@tagged_union
class Loose:
    tag: Literal["b", "a"] = tag()
    b: TAny = case()
    a: TAny = case()


@tagged_union(frozen=True, repr=False)
class NoTag:
    left: TAny = case()
    right: TAny = case()


@tagged_union(frozen=True, order=True)
class Single:
    tag: Literal["only"] = tag()
    only: TAny = case()


@tagged_union(frozen=True)
class Other:
    tag: Literal["circle", "rect"] = tag()
    circle: TAny = case()
    rect: TAny = case()


class Round(Shape):
    pass


@tagged_union(order=True)
class Wide:
    tag: Literal["n0", "n1", "n2", "n3", "n4"] = tag()
    n0: TAny = case()
    n1: TAny = case()
    n2: TAny = case()
    n3: TAny = case()
    n4: TAny = case()


UNIONS = {"Shape": (Shape, ("circle", "rect", "dot")), "Loose": (Loose, ("b", "a")), "NoTag": (NoTag, ("left", "right")), "Single": (Single, ("only",)), "Round": (Round, ("circle", "rect", "dot")),
          "Wide": (Wide, ("n0", "n1", "n2", "n3", "n4"))}


def state(u, names):
    """everything a user can see of the value"""
    held = []
    for n in names:
        if n == u.tag:
            held.append((n, getattr(u, n)))
    return (u.tag, tuple(held))


def missing(u, n):
    try:
        getattr(u, n)
    except AttributeError:
        return True
    return False


for un, (U, names) in UNIONS.items():
    others = "nosuch"
    for i, n in enumerate(names):
        # construction by case name, with and without the matching tag
        c(f"{un}.{n}", dict(x=Any), lambda x, U=U, n=n, names=names: state(U(**{n: x}), names), lambda x, n=n: (n, ((n, x),)))
        c(f"{un}.{n} with tag", dict(x=Any), lambda x, U=U, n=n, names=names: state(U(tag=n, **{n: x}), names), lambda x, n=n: (n, ((n, x),)))
        c(f"{un}.{n} holds no other case", dict(x=Any), lambda x, U=U, n=n, names=names: (lambda u: [missing(u, m) for m in names if m != n])(U(**{n: x})),
          lambda x, n=n, names=names: [True for m in names if m != n])
        c(f"{un}.{n} wrong tag", dict(x=Any), lambda x, U=U, n=n: outcome(lambda: U(tag="nosuch", **{n: x})), lambda x: ("exc", "TypeError"))
        for m in names:
            if m != n:
                c(f"{un}.{n} with tag {m}", dict(x=Any), lambda x, U=U, n=n, m=m: outcome(lambda: U(tag=m, **{n: x})), lambda x: ("exc", "TypeError"))
                c(f"{un}.{n} and {m}", dict(x=Any, y=Any), lambda x, y, U=U, n=n, m=m: outcome(lambda: U(**{n: x, m: y})), lambda x, y: ("exc", "TypeError"))
        c(f"{un}.{n} and an unknown case", dict(x=Any, y=Any), lambda x, y, U=U, n=n: (outcome(lambda: U(**{n: x, "nosuch": y})), outcome(lambda: U(**{"nosuch": y, n: x}))),
          lambda x, y: (("exc", "TypeError"),) * 2)
    c(f"{un} no case", {}, lambda U=U: outcome(lambda: U()), lambda: ("exc", "TypeError"))
    c(f"{un} only a tag", {}, lambda U=U, n=names[0]: outcome(lambda: U(tag=n)), lambda: ("exc", "TypeError"))
    c(f"{un} unknown case", dict(x=Any), lambda x, U=U: outcome(lambda: U(nosuch=x)), lambda x: ("exc", "TypeError"))
    c(f"{un} positional", dict(x=Any), lambda x, U=U: outcome(lambda: U(x)), lambda x: ("exc", "TypeError"))

    # equality: tag and payload
    def mk(i, x, U=U, names=names):
        return U(**{names[i]: x})

    N = IntT(0, len(names) - 1)
    PAY = OneOf(Atom, Int, TupT(Int, Atom))
    c(f"{un} eq", dict(i=N, j=N, x=PAY, y=PAY), lambda i, j, x, y, mk=mk: (mk(i, x) == mk(j, y), mk(i, x) != mk(j, y)),
      lambda i, j, x, y: (i == j and x == y, not (i == j and x == y)))
    c(f"{un} eq nested", dict(i=N, j=N, x=Int, y=Int), lambda i, j, x, y, mk=mk: mk(0, mk(i, x)) == mk(0, mk(j, y)), lambda i, j, x, y: i == j and x == y)
    c(f"{un} eq other types", dict(i=N, x=Atom), lambda i, x, mk=mk, U=U: (mk(i, x) == x, mk(i, x) == None, mk(i, x) == (i, x), mk(i, x) == Other(circle=x), mk(i, x) != Other(rect=x)),  # noqa: E711
      lambda i, x: (False, False, False, False, True))
    # user-defined payload equality is what counts
    c(f"{un} eq uses payload equality", dict(i=N, e=FunT(Bool)), lambda i, e, mk=mk: mk(i, Pay(e, 1)) == mk(i, Pay(e, 2)), lambda i, e: e(1, 2))


class Pay:
    """a payload with its own equality"""

    def __init__(self, e, n):
        self.e, self.n = e, n

    def __eq__(self, o):
        return self.e(self.n, o.n)

    __hash__ = None


FROZEN = {k: UNIONS[k] for k in ("Shape", "NoTag", "Single", "Round")}
ORDERED = {k: UNIONS[k] for k in ("Shape", "Single", "Round", "Wide")}
HP = OneOf(Atom, Int, TupT(Int, Atom))


def set_(u, n, x):
    setattr(u, n, x)


def del_(u, n):
    delattr(u, n)


for un, (U, names) in FROZEN.items():
    def mk(i, x, U=U, names=names):
        return U(**{names[i]: x})

    N = IntT(0, len(names) - 1)
    c(f"{un} equal values hash equally", dict(i=N, j=N, x=HP, y=HP), lambda i, j, x, y, mk=mk: (lambda u, w: not (u == w) or hash(u) == hash(w))(mk(i, x), mk(j, y)), lambda i, j, x, y: True)
    c(f"{un} hash is stable", dict(i=N, x=HP), lambda i, x, mk=mk: (lambda u: hash(u) == hash(u) and hash(u) == hash(mk(i, x)))(mk(i, x)), lambda i, x: True)
    for m in names + (("tag",) if un != "NoTag" else ()):
        c(f"{un} frozen: {m}", dict(i=N, x=Any, y=Any), lambda i, x, y, mk=mk, m=m, names=names: (lambda u: (outcome(set_, u, m, y), outcome(del_, u, m), state(u, names)))(mk(i, x)),
          lambda i, x, y, names=names: (("exc", "TypeError"), ("exc", "TypeError"), (names[i], ((names[i], x),))))
    c(f"{un} other attributes", dict(i=N, x=Any, y=Any), lambda i, x, y, mk=mk, names=names: (lambda u: (outcome(set_, u, "note", y), u.note, outcome(del_, u, "note"), missing(u, "note"), state(u, names)))(mk(i, x)),
      lambda i, x, y, names=names: (("ret", None), y, ("ret", None), True, (names[i], ((names[i], x),))))

for un, (U, names) in ORDERED.items():
    def mk(i, x, U=U, names=names):
        return U(**{names[i]: x})

    N = IntT(0, len(names) - 1)
    c(f"{un} lt", dict(i=N, j=N, x=Key, y=Key), lambda i, j, x, y, mk=mk: mk(i, x) < mk(j, y), lambda i, j, x, y: i < j or (i == j and x < y))
    c(f"{un} gt", dict(i=N, j=N, x=Key, y=Key), lambda i, j, x, y, mk=mk: mk(i, x) > mk(j, y), lambda i, j, x, y: j < i or (i == j and y < x))
    c(f"{un} lt ints", dict(i=N, j=N, x=Int, y=Int), lambda i, j, x, y, mk=mk: mk(i, x) < mk(j, y), lambda i, j, x, y: i < j or (i == j and x < y))
    c(f"{un} lt other types", dict(i=N, x=Int), lambda i, x, mk=mk: (outcome(lambda: mk(i, x) < x), outcome(lambda: mk(i, x) < Other(circle=x))), lambda i, x: (("exc", "TypeError"),) * 2)

# ---- copies
ALL = dict(UNIONS)
for un, (U, names) in ALL.items():
    def mk(i, x, U=U, names=names):
        return U(**{names[i]: x})

    N = IntT(0, len(names) - 1)
    c(f"{un} copy", dict(i=N, x=Any), lambda i, x, mk=mk, U=U, names=names: (lambda u: (lambda w: (type(w) is U, w is u, state(w, names), state(u, names)))(copy.copy(u)))(mk(i, x)),
      lambda i, x, names=names: (True, False, (names[i], ((names[i], x),)), (names[i], ((names[i], x),))))

    def deep(i, x, mk=mk, U=U, names=names):
        l = [x]
        u = mk(i, l)
        w = copy.deepcopy(u)
        l.append(x)
        return (type(w) is U, w.tag, getattr(w, w.tag), getattr(u, u.tag), getattr(w, w.tag) is l)
    c(f"{un} deepcopy", dict(i=N, x=Int), deep, lambda i, x, names=names: (True, names[i], [x], [x, x], False))

    def restored(i, x, mk=mk, U=U, names=names):
        u = mk(i, x)
        w = U.__new__(U)
        w.__setstate__(u.__getstate__())
        return (type(w) is U, state(w, names), w == u)
    c(f"{un} state round trip", dict(i=N, x=Atom), restored, lambda i, x, names=names: (True, (names[i], ((names[i], x),)), True))
    c(f"{un} pickle", dict(i=N, x=Int), lambda i, x, mk=mk, U=U, names=names: (lambda u: (lambda w: (type(w) is U, state(w, names), w == u, w.tag))(pickle.loads(pickle.dumps(u))))(mk(i, x)),
      lambda i, x, names=names: (True, (names[i], ((names[i], x),)), True, names[i]), native_only="pickle's own machinery; the state methods it calls are under contract")

# ---- the library's own unions
mks = {"Some": lambda x: Some(x), "Ok": lambda x: Ok(x), "Error": lambda x: Error(x), "Success": lambda x: Success(x), "Failure": lambda x: Failure(x)}
fld = {"Some": "some", "Ok": "ok", "Error": "error", "Success": "ok", "Failure": "error"}
for n, f in mks.items():
    c(f"{n} case", dict(x=Any), lambda x, f=f, n=n: (f(x).tag, getattr(f(x), fld[n])), lambda x, n=n: (fld[n], x))
    c(f"{n} frozen", dict(x=Any, y=Any), lambda x, y, f=f, n=n: (lambda u: (outcome(set_, u, fld[n], y), outcome(set_, u, "tag", y), outcome(del_, u, fld[n]), u.tag, getattr(u, fld[n])))(f(x)),
      lambda x, y, n=n: (("exc", "TypeError"),) * 3 + (fld[n], x))
    c(f"{n} copies", dict(x=Int), lambda x, f=f: (lambda u: (copy.copy(u) == u, type(copy.copy(u)) is type(u), copy.deepcopy(u) == u, type(copy.deepcopy(u)) is type(u)))(f(x)), lambda x: (True,) * 4)
    c(f"{n} equal values hash equally", dict(x=HP, y=HP), lambda x, y, f=f: (lambda u, w: not (u == w) or hash(u) == hash(w))(f(x), f(y)), lambda x, y: True)
c("Nothing copies", {}, lambda: (copy.copy(Nothing) == Nothing, copy.deepcopy(Nothing) == Nothing, copy.copy(Nothing).is_none(), hash(Nothing) == hash(copy.copy(Nothing))), lambda: (True,) * 4)
c("option order", dict(x=Key, y=Key), lambda x, y: (Some(x) < Some(y), Nothing < Some(x), Some(x) < Nothing, Nothing < Nothing), lambda x, y: (x < y, True, False, False))
c("result order", dict(x=Key, y=Key), lambda x, y: (Ok(x) < Ok(y), Error(x) < Error(y), Ok(x) < Error(y), Error(x) < Ok(y)), lambda x, y: (x < y, x < y, True, False))
c("option eq", dict(x=HP, y=HP), lambda x, y: (Some(x) == Some(y), Some(x) == Nothing, Nothing == Some(y), Nothing == Nothing, Some(x) == x), lambda x, y: (x == y, False, False, True, False))
c("result eq", dict(x=HP, y=HP), lambda x, y: (Ok(x) == Ok(y), Error(x) == Error(y), Ok(x) == Error(y), Error(x) == Ok(y), Ok(x) == Some(x)), lambda x, y: (x == y, x == y, False, False, False))


# ---- what is not asked for is not generated: a union that is not frozen can be changed, one without order is not ordered
def change_loose(x, y):
    u = Loose(b=x)
    u.b = y
    return (u.tag, u.b, u == Loose(b=y))


c("a union that is not frozen", dict(x=Atom, y=Atom), change_loose, lambda x, y: ("b", y, True))
c("a union that is not ordered", dict(x=Int, y=Int), lambda x, y: outcome(lambda: Loose(b=x) < Loose(b=y)), lambda x, y: outcome(refuse_order))


def refuse_order():
    raise TypeError

"""C12: TypedArray operations against ghost programs over the mathematical sequence of elements."""
from expression import Nothing, Some
from expression.collections import TypedArray, array, seq
from expression.collections.array import TypeCode
from pv.lang import Any, Atom, Bool, FunT, Int, IntT, Key, Nat, OptT, SeqT, TupT, contract
from contracts.util import outcome

P = "C12"
XS, NAT, POS, F, PR, FO = SeqT(), IntT(0), IntT(1), FunT(Any), FunT(Bool), FunT(OptT())
FS, FI, INTS = FunT(SeqT()), FunT(Int), SeqT(Int)


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def v(b):
    """the elements of an array; anything that is not a TypedArray is reported as such"""
    if isinstance(b, TypedArray):
        return tuple(b)
    return ("not an array", b)


def forms(name, args, meth, mod, spec, view=v, xs=XS, **k):
    if meth is not None:
        def code(xs, *a):
            b = TypedArray(xs)
            r = view(meth(b, *a))
            return (r, tuple(b))
        c(name + " (method)", dict(xs=xs, **args), code, lambda xs, *a: (spec(xs, *a), xs), **k)
    if mod is not None:
        def code2(xs, *a):
            b = TypedArray(xs)
            r = view(mod(b, *a))
            return (r, tuple(b))
        c(name + " (module)", dict(xs=xs, **args), code2, lambda xs, *a: (spec(xs, *a), xs), **k)


def same(x):
    return x


# ---- construction
c("construct", dict(xs=XS), lambda xs: v(TypedArray(xs)), lambda xs: xs)
c("construct from list", dict(xs=XS), lambda xs: v(TypedArray(list(xs))), lambda xs: xs)
c("construct from array", dict(xs=XS), lambda xs: v(TypedArray(TypedArray(xs))), lambda xs: xs)
c("construct from iterator", dict(xs=XS), lambda xs: v(TypedArray(iter(xs))), lambda xs: xs)
c("construct from generator", dict(xs=XS), lambda xs: v(TypedArray(x for x in xs)), lambda xs: xs)
c("construct from seq", dict(xs=XS), lambda xs: v(TypedArray(seq.of_iterable(xs))), lambda xs: xs)
c("construct empty", dict(), lambda: (v(TypedArray()), v(TypedArray.empty()), v(array.empty())), lambda: ((), (), ()))


def alias(xs, w):
    l = list(xs)
    b = TypedArray(l)
    l.append(w)
    return v(b)


def alias2(xs, w):
    b = TypedArray(xs)
    d = TypedArray(b)
    b.append(w)
    return (v(b), v(d))


c("construct copies", dict(xs=XS, w=Any), alias, lambda xs, w: xs)
c("construct from array copies", dict(xs=XS, w=Any), alias2, lambda xs, w: (xs + (w,), xs))
c("of", dict(xs=XS), lambda xs: (v(TypedArray.of(*xs)), v(array.of(*xs))), lambda xs: (xs, xs))
c("of_seq", dict(xs=XS), lambda xs: (v(TypedArray.of_seq(x for x in xs)), v(array.of_seq(iter(xs)))), lambda xs: (xs, xs))
c("singleton", dict(x=Any), lambda x: v(array.singleton(x)), lambda x: (x,))
c("of_option", dict(o=OptT()), lambda o: v(array.of_option(o)), lambda o: tuple(o.to_list()))
c("fresh empties", dict(x=Any), lambda x: (lambda a, b: (a.append(x), v(a), v(b), v(array.empty())))(array.empty(), TypedArray.empty()),
  lambda x: (None, (x,), (), ()))


# ---- sequence to sequence
def s_map(xs, f):
    out = []
    for x in xs:
        out.append(f(x))
    return tuple(out)


def s_choose(xs, f):
    out = []
    for x in xs:
        o = f(x)
        if o.tag == "some":
            out.append(o.some)
    return tuple(out)


def s_collect(xs, f):
    out = []
    for x in xs:
        for y in f(x):
            out.append(y)
    return tuple(out)


def s_filter(xs, p):
    out = []
    for x in xs:
        if p(x):
            out.append(x)
    return tuple(out)


def s_indexed(xs, start=0):
    out = []
    for i in range(len(xs)):
        out.append((start + i, xs[i]))
    return tuple(out)


forms("map", dict(f=F), lambda b, f: b.map(f), lambda b, f: array.map(f)(b), s_map)
forms("choose", dict(f=FO), lambda b, f: b.choose(f), None, s_choose)
forms("collect", dict(f=FS), lambda b, f: b.collect(lambda x: TypedArray(f(x))), None, s_collect)
forms("filter", dict(f=PR), lambda b, f: b.filter(f), lambda b, f: array.filter(f)(b), s_filter)
forms("indexed", dict(), lambda b: b.indexed(), lambda b: array.indexed()(b), s_indexed)
forms("indexed from", dict(n=Int), lambda b, n: b.indexed(n), lambda b, n: array.indexed(n)(b), s_indexed)

# ---- parts
forms("skip", dict(n=NAT), lambda b, n: b.skip(n), None, lambda xs, n: xs[min(n, len(xs)):])
forms("skip_last", dict(n=POS), lambda b, n: b.skip_last(n), None, lambda xs, n: xs[:len(xs) - min(n, len(xs))])
forms("take", dict(n=NAT), lambda b, n: b.take(n), lambda b, n: array.take(n)(b), lambda xs, n: xs[:min(n, len(xs))])
forms("take_last", dict(n=POS), lambda b, n: b.take_last(n), lambda b, n: array.take_last(n)(b), lambda xs, n: xs[len(xs) - min(n, len(xs)):])

c("skip_last of 0", dict(xs=XS), lambda xs: v(TypedArray(xs).skip_last(0)), lambda xs: xs)
c("take_last of 0", dict(xs=XS), lambda xs: v(TypedArray(xs).take_last(0)), lambda xs: ())


def s_tail(xs):
    if len(xs) == 0:
        raise ValueError
    return xs[1:]


def s_head(xs):
    if len(xs) == 0:
        raise ValueError
    return xs[0]


def s_item(xs, i):
    if i < 0:
        i += len(xs)
    if i < 0 or i >= len(xs):
        raise IndexError
    return xs[i]


def oc(f):
    return lambda *a: outcome(f, *a)


def vt(o):
    if o[0] == "ret":
        return (o[0], v(o[1]))
    return o


def s_reversed(xs):
    out = []
    i = len(xs) - 1
    while i >= 0:
        out.append(xs[i])
        i -= 1
    return tuple(out)


forms("tail", dict(), oc(lambda b: b.tail()), None, oc(s_tail), view=vt)
forms("head", dict(), oc(lambda b: b.head()), None, oc(s_head), view=same)
forms("try_head", dict(), lambda b: b.try_head(), lambda b: array.try_head(b), lambda xs: Some(xs[0]) if len(xs) > 0 else Nothing, view=same)
forms("item", dict(i=Int), oc(lambda b, i: b.item(i)), oc(lambda b, i: array.item(i)(b)), oc(s_item), view=same)
forms("getitem", dict(i=Int), oc(lambda b, i: b[i]), None, oc(s_item), view=same)
forms("slice", dict(i=Int, j=Int), lambda b, i, j: tuple(b[i:j]), None, lambda xs, i, j: xs[i:j], view=same)
forms("iter", dict(), lambda b: tuple(iter(b)), None, same, view=same)
forms("reversed", dict(), lambda b: tuple(reversed(b)), None, s_reversed, view=same)
forms("len", dict(), lambda b: len(b), None, lambda xs: len(xs), view=same)
forms("bool", dict(), lambda b: bool(b), None, lambda xs: len(xs) > 0, view=same)
forms("is_empty", dict(), lambda b: b.is_empty(), lambda b: array.is_empty(b), lambda xs: len(xs) == 0, view=same)


# ---- aggregates
def s_fold(xs, f, s):
    for x in xs:
        s = f(s, x)
    return s


def s_forall(xs, p):
    for x in xs:
        if not p(x):
            return False
    return True


def s_sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def s_sum_by(xs, f):
    ys = []
    for x in xs:
        ys.append(f(x))
    t = 0
    for y in ys:
        t = t + y
    return t


forms("fold", dict(f=F, s=Any), lambda b, f, s: b.fold(f, s), lambda b, f, s: array.fold(f, s)(b), s_fold, view=same)
forms("forall", dict(f=PR), lambda b, f: b.forall(f), None, s_forall, view=same)
c("sum", dict(xs=INTS), lambda xs: (TypedArray(xs).sum(), array.sum(TypedArray(xs))), lambda xs: (s_sum(xs), s_sum(xs)))
forms("sum_by", dict(f=FI), lambda b, f: b.sum_by(f), lambda b, f: array.sum_by(f)(b), s_sum_by, view=same)


def s_contains(xs, y):
    for x in xs:
        if x is y or x == y:
            return True
    return False


c("contains", dict(xs=SeqT(Atom), x=Atom), lambda xs, x: x in TypedArray(xs), s_contains)


# ---- equality: same length and equal elements
def s_eq(xs, ys):
    if len(xs) != len(ys):
        return False
    for i in range(len(xs)):
        if xs[i] != ys[i]:
            return False
    return True


ATOMS = SeqT(Atom)
c("eq", dict(xs=ATOMS, ys=ATOMS), lambda xs, ys: TypedArray(xs) == TypedArray(ys), s_eq)
c("eq list", dict(xs=ATOMS, ys=ATOMS), lambda xs, ys: TypedArray(xs) == list(ys), s_eq)
c("ne", dict(xs=ATOMS, ys=ATOMS), lambda xs, ys: TypedArray(xs) != TypedArray(ys), lambda xs, ys: not s_eq(xs, ys))


# ---- sorting: a stable sort by key, of a copy
KEYS, FK = SeqT(Key), FunT(Key)
forms("sort", dict(r=Bool), lambda b, r: b.sort(r), None, lambda xs, r: tuple(sorted(xs, reverse=r)), xs=KEYS)
forms("sort default", dict(), lambda b: b.sort(), None, lambda xs: tuple(sorted(xs)), xs=KEYS)
forms("sort_with", dict(f=FK, r=Bool), lambda b, f, r: b.sort_with(f, r), None, lambda xs, f, r: tuple(sorted(xs, key=f, reverse=r)))
forms("sort_with default", dict(f=FK), lambda b, f: b.sort_with(f), None, lambda xs, f: tuple(sorted(xs, key=f)))


# ---- unfold
FU = FunT(OptT(TupT(Any, Any)))


def s_unfold(s, f):
    out = []
    while True:
        o = f(s)
        if o.tag != "some":
            return tuple(out)
        x, s = o.some
        out.append(x)


c("unfold (method)", dict(s=Any, f=FU), lambda s, f: v(TypedArray.unfold(f, s)), s_unfold)
c("unfold (module)", dict(s=Any, f=FU), lambda s, f: v(array.unfold(f)(s)), s_unfold)


# ---- in place
def inplace(name, args, op, spec, xs=XS, **k):
    """op(array, *args) and then the elements; a refused operation leaves them as they were"""
    def code(xs, *a):
        b = TypedArray(xs)
        r = outcome(op, b, *a)
        return (r, tuple(b), len(b))

    def s(xs, *a):
        r, ys = spec(xs, *a)
        return (r, ys, len(ys))
    c(name, dict(xs=xs, **args), code, s, **k)


def do_set(b, i, x):
    b[i] = x


def do_del(b, i):
    del b[i]


def pos(xs, i):
    return i + len(xs) if i < 0 else i


def s_set(xs, i, x):
    i = pos(xs, i)
    if i < 0 or i >= len(xs):
        return ("exc", "IndexError"), xs
    return ("ret", None), xs[:i] + (x,) + xs[i + 1:]


def do_set_slice(b, i, j, ys):
    b[i:j] = list(ys)


def do_del_slice(b, i, j):
    del b[i:j]


def clip(xs, i):
    i = pos(xs, i)
    return 0 if i < 0 else len(xs) if i > len(xs) else i


def s_set_slice(xs, i, j, ys):
    i, j = clip(xs, i), clip(xs, j)
    if j < i:
        j = i
    return ("ret", None), xs[:i] + ys + xs[j:]


def s_del(xs, i):
    i = pos(xs, i)
    if i < 0 or i >= len(xs):
        return ("exc", "IndexError"), xs
    return ("ret", None), xs[:i] + xs[i + 1:]


def s_insert(xs, i, x):
    i = pos(xs, i)
    if i < 0:
        i = 0
    if i > len(xs):
        i = len(xs)
    return ("ret", None), xs[:i] + (x,) + xs[i:]


def s_pop(xs):
    if len(xs) == 0:
        return ("exc", "IndexError"), xs
    return ("ret", xs[len(xs) - 1]), xs[:len(xs) - 1]


def s_pop_at(xs, i):
    i = pos(xs, i)
    if i < 0 or i >= len(xs):
        return ("exc", "IndexError"), xs
    return ("ret", xs[i]), xs[:i] + xs[i + 1:]


inplace("setitem", dict(i=Int, x=Any), do_set, s_set)
inplace("delitem", dict(i=Int), do_del, s_del)
inplace("set slice", dict(i=Int, j=Int, ys=XS), do_set_slice, s_set_slice)
inplace("set slice from", dict(i=Int, ys=XS), lambda b, i, ys: do_set_slice(b, i, None, ys), lambda xs, i, ys: s_set_slice(xs, i, len(xs), ys))
inplace("set slice to", dict(j=Int, ys=XS), lambda b, j, ys: do_set_slice(b, None, j, ys), lambda xs, j, ys: s_set_slice(xs, 0, j, ys))
inplace("delete slice", dict(i=Int, j=Int), do_del_slice, lambda xs, i, j: s_set_slice(xs, i, j, ()))
inplace("insert", dict(i=Int, x=Any), lambda b, i, x: b.insert(i, x), s_insert)
inplace("append", dict(x=Any), lambda b, x: b.append(x), lambda xs, x: (("ret", None), xs + (x,)))
inplace("extend", dict(ys=XS), lambda b, ys: b.extend(ys), lambda xs, ys: (("ret", None), xs + ys))
inplace("pop", dict(), lambda b: b.pop(), s_pop)
inplace("pop at", dict(i=Int), lambda b, i: b.pop(i), s_pop_at)
inplace("clear", dict(), lambda b: b.clear(), lambda xs: (("ret", None), ()))


# ---- a copy taken by an operation does not share its elements with the receiver
def then_change(op):
    def code(xs, x, *a):
        b = TypedArray(xs)
        r = op(b, *a)
        r.append(x)
        return tuple(b)
    return code


for nm, op, extra in (("take", lambda b, n: b.take(n), dict(n=NAT)), ("skip", lambda b, n: b.skip(n), dict(n=NAT)), ("take_last", lambda b, n: b.take_last(n), dict(n=NAT)),
                      ("skip_last", lambda b, n: b.skip_last(n), dict(n=NAT))):
    c(f"{nm} gives a new array", dict(xs=XS, x=Any, **extra), then_change(op), lambda xs, x, *a: xs)
c("filter gives a new array", dict(xs=XS, x=Any, f=PR), lambda xs, x, f: then_change(lambda b: b.filter(f))(xs, x), lambda xs, x, f: (s_filter(xs, f), xs)[1])

# ---- typed storage: the elements survive and anything outside the element type is refused
RANGES = dict(Int8=(-128, 127), Uint8=(0, 255), Byte=(0, 255), Int16=(-2**15, 2**15 - 1), Uint16=(0, 2**16 - 1), Int32=(-2**31, 2**31 - 1),
              Uint32=(0, 2**32 - 1), Int64=(-2**63, 2**63 - 1), Uint64=(0, 2**64 - 1))


def refusal(f):
    try:
        f()
    except Exception:
        return "refused"
    return "accepted"


def refuse(tc, lo, hi):
    def code(xs, i, d, up):
        b = TypedArray(xs, tc)
        bad = hi + 1 + d if up else lo - 1 - d
        return (refusal(lambda: b.append(bad)), refusal(lambda: b.insert(i, bad)), refusal(lambda: do_set(b, i, bad)), refusal(lambda: TypedArray((bad,), tc)), tuple(b))
    return code


def wrong(tc):
    def code(xs, i):
        b = TypedArray(xs, tc)
        return (refusal(lambda: b.append("no")), refusal(lambda: b.insert(i, "no")), refusal(lambda: do_set(b, i, "no")), refusal(lambda: TypedArray(("no",), tc)), tuple(b))
    return code


def typed(tc, lo, hi):
    ty = SeqT(IntT(lo, hi))
    c(f"typed {tc.name}", dict(xs=ty, i=Int), lambda xs, i: (lambda b: (tuple(b), len(b), outcome(lambda: b[i]), tuple(b)))(TypedArray(xs, tc)),
      lambda xs, i: (xs, len(xs), outcome(s_item, xs, i), xs))
    c(f"typed {tc.name} filter", dict(xs=ty, f=PR), lambda xs, f: (lambda b: (v(b.filter(f)), tuple(b)))(TypedArray(xs, tc)), lambda xs, f: (s_filter(xs, f), xs))
    c(f"typed {tc.name} parts", dict(xs=ty, n=POS), lambda xs, n: (lambda b: (v(b.take(n)), v(b.skip(n)), v(b.take_last(n)), v(b.skip_last(n)), tuple(b)))(TypedArray(xs, tc)),
      lambda xs, n: (xs[:min(n, len(xs))], xs[min(n, len(xs)):], xs[len(xs) - min(n, len(xs)):], xs[:len(xs) - min(n, len(xs))], xs))
    c(f"typed {tc.name} fold", dict(xs=ty, f=F, s=Any), lambda xs, f, s: TypedArray(xs, tc).fold(f, s), s_fold)

    def change(xs, i, x):
        b = TypedArray(xs, tc)
        return (outcome(do_set, b, i, x), tuple(b))
    c(f"typed {tc.name} setitem", dict(xs=ty, i=Int, x=IntT(lo, hi)), change, s_set)

    def change2(xs, i, x):
        b = TypedArray(xs, tc)
        return (outcome(lambda: b.insert(i, x)), tuple(b))

    def change3(xs, i, j, ys):
        b = TypedArray(xs, tc)
        b[i:j] = TypedArray(ys, tc).value
        return (("ret", None), tuple(b))
    c(f"typed {tc.name} set slice", dict(xs=ty, i=Int, j=Int, ys=ty), change3, s_set_slice)
    if tc.name not in ("Int32", "Uint32"):  # stored in a C long, whose width is the platform's
        c(f"typed {tc.name} refuses", dict(xs=ty, i=Int, d=Nat, up=Bool), refuse(tc, lo, hi), lambda xs, i, d, up: ("refused", "refused", "refused", "refused", xs))
    else:
        c(f"typed {tc.name} refuses", dict(xs=ty, i=Int, d=Nat, up=Bool), refuse(tc, -2**64, 2**64), lambda xs, i, d, up: ("refused", "refused", "refused", "refused", xs))
    c(f"typed {tc.name} refuses other values", dict(xs=ty, i=Int), wrong(tc), lambda xs, i: ("refused", "refused", "refused", "refused", xs))
    c(f"typed {tc.name} insert", dict(xs=ty, i=Int, x=IntT(lo, hi)), change2, s_insert)


for nm, (lo, hi) in RANGES.items():
    typed(TypeCode[nm], lo, hi)


# ---- the element type is inferred from the first element (classes derived from int: outside the verifier's reach, sampled)
NAMES = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
CODES = ("Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64")
SMALL = SeqT(IntT(0, 127))


def inferred(xs, k, n):
    cls = getattr(array, NAMES[k])
    b = TypedArray([cls(x) for x in xs])
    return (tuple(b), b.typecode.name, tuple(b.filter(lambda x: x % 2 == 0)), tuple(b.take(n)), tuple(b.sort()), tuple(b))


def s_inferred(xs, k, n):
    return (xs, CODES[k] if xs else "Any", tuple(x for x in xs if x % 2 == 0), xs[:n], tuple(sorted(xs)), xs)


c("inferred integer element types", dict(xs=SMALL, k=IntT(0, 7), n=NAT), inferred, s_inferred, native_only="element classes derived from int and float, bytes")


def flo(xs, k):
    cls = (array.float32, array.float64, array.double)[k]
    b = TypedArray([cls(x / 2) for x in xs])
    return (tuple(b), b.typecode.name, tuple(b.map(lambda x: x + 1)), tuple(b.filter(lambda x: x > 3)))


def s_flo(xs, k):
    ys = tuple(x / 2 for x in xs)
    return (ys, ("Float", "Double", "Double")[k] if xs else "Any", tuple(y + 1 for y in ys), tuple(y for y in ys if y > 3))


c("inferred float element types", dict(xs=SMALL, k=IntT(0, 2)), flo, s_flo, native_only="element classes derived from int and float, bytes")


def floats(tc):
    """halves of small integers: exact in every float type"""
    def code(xs, i, x, f):
        ys = tuple(y / 2 for y in xs)
        b = TypedArray(ys, tc)
        return (tuple(b), len(b), outcome(lambda: b[i]), tuple(b.take(2)), tuple(b.skip(2)), tuple(b.filter(lambda y: y > 2)), refusal(lambda: b.append("no")),
                refusal(lambda: TypedArray(("no",), tc)), outcome(do_set, b, i, x / 2), tuple(b))

    def spec(xs, i, x, f):
        ys = tuple(y / 2 for y in xs)
        r, zs = s_set(ys, i, x / 2)
        return (ys, len(ys), outcome(s_item, ys, i), ys[:2], ys[2:], tuple(y for y in ys if y > 2), "refused", "refused", r, zs)
    return code, spec


for nm in ("Float", "Double"):
    c(f"typed {nm}", dict(xs=SMALL, i=Int, x=IntT(0, 127), f=Bool), *floats(TypeCode[nm]), native_only="floating-point arithmetic is outside the verifier's arithmetic")
c("bytes", dict(xs=SMALL), lambda xs: (tuple(TypedArray(bytes(xs))), tuple(TypedArray(bytearray(xs))), TypedArray(bytes(xs)).typecode.name, TypedArray(bytearray(xs)).typecode.name), lambda xs: (xs, xs, "Byte", "Byte"), native_only="element classes derived from int and float, bytes")

"""C09: Block operations against ghost programs over the mathematical sequence of elements (a tuple of any length).
Every contract also returns the elements of the receiver afterwards: no operation changes an existing Block."""
from expression import Nothing, Some
from expression.collections import Block, block, seq
from pv.lang import Any, Atom, Bool, FunT, Int, IntT, Key, Nat, OptT, SeqT, TupT, ask, contract, fresh
from contracts.util import outcome

P = "C09"
XS, NAT, POS, F, PR, FO = SeqT(), IntT(0), IntT(1), FunT(Any), FunT(Bool), FunT(OptT())
FS = FunT(SeqT())
PAIRS, TRIPLES = SeqT(TupT(Any, Any)), SeqT(TupT(Any, Any, Any))
FI = FunT(Int)
INTS = SeqT(Int)


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def v(b):
    """the elements of a block; anything that is not a Block is reported as such"""
    if isinstance(b, Block):
        return tuple(b)
    return ("not a block", b)


# every operation in its method form and its module form; `view` of the result and the receiver afterwards
def forms(name, args, meth, mod, spec, view=v, **k):
    if meth is not None:
        def code(xs, *a):
            b = Block(xs)
            r = view(meth(b, *a))
            return (r, tuple(b))
        c(name + " (method)", dict(xs=XS, **args), code, lambda xs, *a: (spec(xs, *a), xs), **k)
    if mod is not None:
        def code2(xs, *a):
            b = Block(xs)
            r = view(mod(b, *a))
            return (r, tuple(b))
        c(name + " (module)", dict(xs=XS, **args), code2, lambda xs, *a: (spec(xs, *a), xs), **k)


def same(x):
    return x


# ---- construction
c("construct", dict(xs=XS), lambda xs: v(Block(xs)), lambda xs: xs)
c("construct from list", dict(xs=XS), lambda xs: v(Block(list(xs))), lambda xs: xs)
c("construct from block", dict(xs=XS), lambda xs: v(Block(Block(xs))), lambda xs: xs)
c("construct from iterator", dict(xs=XS), lambda xs: v(Block(iter(xs))), lambda xs: xs)
c("construct from generator", dict(xs=XS), lambda xs: v(Block(x for x in xs)), lambda xs: xs)
c("construct from seq", dict(xs=XS), lambda xs: v(Block(seq.of_iterable(xs))), lambda xs: xs)
c("construct empty", dict(), lambda: v(Block()), lambda: ())


def alias(xs, w):
    l = list(xs)
    b = Block(l)
    l.append(w)
    return v(b)


c("construct copies", dict(xs=XS, w=Any), alias, lambda xs, w: xs)
c("Block.of", dict(xs=XS), lambda xs: v(Block.of(*xs)), lambda xs: xs)
c("block.of", dict(xs=XS), lambda xs: v(block.of(*xs)), lambda xs: xs)
c("Block.of_seq", dict(xs=XS), lambda xs: v(Block.of_seq(x for x in xs)), lambda xs: xs)
c("block.of_seq", dict(xs=XS), lambda xs: v(block.of_seq(iter(xs))), lambda xs: xs)
c("Block.empty", dict(), lambda: (v(Block.empty()), v(block.empty), v(block.nil)), lambda: ((), (), ()))
c("Block.singleton", dict(x=Any), lambda x: (v(Block.singleton(x)), v(block.singleton(x))), lambda x: ((x,), (x,)))
c("Block.of_option", dict(o=OptT()), lambda o: (v(Block.of_option(o)), v(block.of_option(o))), lambda o: (tuple(o.to_list()),) * 2)
c("Block.range", dict(n=Int), lambda n: v(Block.range(n)), lambda n: tuple(range(n)))
c("block.range", dict(n=Int, m=Int), lambda n, m: v(block.range(n, m)), lambda n, m: tuple(range(n, m)))
c("block.range step", dict(n=Int, m=Int), lambda n, m: v(Block.range(n, m, 3)), lambda n, m: tuple(range(n, m, 3)))


# ---- sequence to sequence
def s_map(xs, f):
    out = []
    for x in xs:
        out.append(f(x))
    return tuple(out)


def s_mapi(xs, f):
    out = []
    i = 0
    for x in xs:
        out.append(f(i, x))
        i += 1
    return tuple(out)


def s_starmap(xs, f):
    out = []
    for x in xs:
        out.append(f(*x))
    return tuple(out)


def s_choose(xs, f):
    out = []
    for x in xs:
        o = f(x)
        if o.tag == "some":
            out.append(o.some)
    return tuple(out)


def s_collect(xs, f):
    out = []
    for x in xs:
        for y in f(x):
            out.append(y)
    return tuple(out)


def s_filter(xs, p):
    out = []
    for x in xs:
        if p(x):
            out.append(x)
    return tuple(out)


def s_indexed(xs, start=0):
    out = []
    for i in range(len(xs)):
        out.append((start + i, xs[i]))
    return tuple(out)


def s_partition(xs, p):
    a, b = [], []
    for x in xs:
        if p(x):
            a.append(x)
        else:
            b.append(x)
    return (tuple(a), tuple(b))


def s_zip(xs, ys):
    out = []
    for i in range(min(len(xs), len(ys))):
        out.append((xs[i], ys[i]))
    return tuple(out)


def v2(p):
    a, b = p
    return (v(a), v(b))


forms("map", dict(f=F), lambda b, f: b.map(f), lambda b, f: block.map(f)(b), s_map)
forms("mapi", dict(f=F), lambda b, f: b.mapi(f), lambda b, f: block.mapi(f)(b), s_mapi)
forms("choose", dict(f=FO), lambda b, f: b.choose(f), lambda b, f: block.choose(f)(b), s_choose)
forms("collect", dict(f=FS), lambda b, f: b.collect(lambda x: Block(f(x))), lambda b, f: block.collect(lambda x: Block(f(x)))(b), s_collect)
forms("filter", dict(f=PR), lambda b, f: b.filter(f), lambda b, f: block.filter(f)(b), s_filter)
forms("indexed", dict(), lambda b: b.indexed(), lambda b: block.indexed(b), s_indexed)
forms("indexed from", dict(n=Int), lambda b, n: b.indexed(n), None, s_indexed)
forms("partition", dict(f=PR), lambda b, f: b.partition(f), lambda b, f: block.partition(f)(b), s_partition, view=v2)
c("starmap (method)", dict(xs=PAIRS, f=F), lambda xs, f: v(Block(xs).starmap(f)), s_starmap)
c("starmap (module)", dict(xs=PAIRS, f=F), lambda xs, f: v(block.starmap(f)(Block(xs))), s_starmap)
c("map2", dict(xs=PAIRS, f=F), lambda xs, f: v(block.map2(f)(Block(xs))), s_starmap)
c("map3", dict(xs=TRIPLES, f=F), lambda xs, f: v(block.map3(f)(Block(xs))), s_starmap)
forms("zip", dict(ys=XS), lambda b, ys: b.zip(Block(ys)), lambda b, ys: block.zip(Block(ys))(b), s_zip)
forms("append", dict(ys=XS), lambda b, ys: b.append(Block(ys)), lambda b, ys: block.append(Block(ys))(b), lambda xs, ys: xs + ys)
forms("add", dict(ys=XS), lambda b, ys: b + Block(ys), None, lambda xs, ys: xs + ys)
forms("cons", dict(x=Any), lambda b, x: b.cons(x), lambda b, x: block.cons(x, b), lambda xs, x: (x,) + xs)


def blocks():
    while ask():
        yield Block(fresh(XS))


def s_concat():
    out = ()
    while ask():
        out = out + fresh(XS)
    return out


c("concat", dict(), lambda: v(block.concat(blocks())), s_concat)
c("concat of three", dict(xs=XS, ys=XS, zs=XS), lambda xs, ys, zs: v(block.concat(Block([Block(xs), Block(ys), Block(zs)]))), lambda xs, ys, zs: xs + ys + zs)
c("concat of none", dict(), lambda: v(block.concat([])), lambda: ())

# ---- parts; counts are lengths, so they are natural numbers of any size
forms("skip", dict(n=NAT), lambda b, n: b.skip(n), lambda b, n: block.skip(n)(b), lambda xs, n: xs[min(n, len(xs)):])
forms("skip_last", dict(n=POS), lambda b, n: b.skip_last(n), lambda b, n: block.skip_last(n)(b), lambda xs, n: xs[:len(xs) - min(n, len(xs))])
forms("take", dict(n=NAT), lambda b, n: b.take(n), lambda b, n: block.take(n)(b), lambda xs, n: xs[:min(n, len(xs))])
forms("take_last", dict(n=POS), lambda b, n: b.take_last(n), lambda b, n: block.take_last(n)(b), lambda xs, n: xs[len(xs) - min(n, len(xs)):])

c("skip_last of 0", dict(xs=XS), lambda xs: v(Block(xs).skip_last(0)), lambda xs: xs)
c("take_last of 0", dict(xs=XS), lambda xs: v(Block(xs).take_last(0)), lambda xs: ())


def s_tail(xs):
    if len(xs) == 0:
        raise ValueError
    return xs[1:]


def s_head(xs):
    if len(xs) == 0:
        raise ValueError
    return xs[0]


def s_item(xs, i):
    if i < 0:
        i += len(xs)
    if i < 0 or i >= len(xs):
        raise IndexError
    return xs[i]


def oc(f):
    return lambda *a: outcome(f, *a)


def vt(o):
    if o[0] == "ret":
        return (o[0], v(o[1]))
    return o


forms("tail", dict(), oc(lambda b: b.tail()), oc(lambda b: block.tail(b)), oc(s_tail), view=vt)
forms("head", dict(), oc(lambda b: b.head()), oc(lambda b: block.head(b)), oc(s_head), view=same)
forms("try_head", dict(), lambda b: b.try_head(), lambda b: block.try_head(b), lambda xs: Some(xs[0]) if len(xs) > 0 else Nothing, view=same)
forms("item", dict(i=Int), oc(lambda b, i: b.item(i)), oc(lambda b, i: block.item(i)(b)), oc(s_item), view=same)
forms("getitem", dict(i=Int), oc(lambda b, i: b[i]), None, oc(s_item), view=same)
forms("slice", dict(i=Int, j=Int), lambda b, i, j: b[i:j], None, lambda xs, i, j: xs[i:j])
forms("slice from", dict(i=Int), lambda b, i: b[i:], None, lambda xs, i: xs[i:])
forms("slice to", dict(i=Int), lambda b, i: b[:i], None, lambda xs, i: xs[:i])
forms("reversed slice", dict(), lambda b: b[::-1], None, lambda xs: xs[::-1])
forms("iter", dict(), lambda b: tuple(iter(b)), None, same, view=same)
forms("len", dict(), lambda b: len(b), None, lambda xs: len(xs), view=same)
forms("bool", dict(), lambda b: bool(b), None, lambda xs: len(xs) > 0, view=same)
forms("is_empty", dict(), lambda b: b.is_empty(), lambda b: block.is_empty(b), lambda xs: len(xs) == 0, view=same)


# ---- aggregates
def s_fold(xs, f, s):
    for x in xs:
        s = f(s, x)
    return s


def s_reduce(xs, f):
    if len(xs) == 0:
        raise ValueError
    s = xs[0]
    for i in range(1, len(xs)):
        s = f(s, xs[i])
    return s


def s_forall(xs, p):
    for x in xs:
        if not p(x):
            return False
    return True


def s_sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def s_sum_by(xs, f):
    ys = []
    for x in xs:
        ys.append(f(x))
    t = 0
    for y in ys:
        t = t + y
    return t


def s_contains(xs, y):
    for x in xs:
        if x is y or x == y:
            return True
    return False


forms("fold", dict(f=F, s=Any), lambda b, f, s: b.fold(f, s), lambda b, f, s: block.fold(f, s)(b), s_fold, view=same)
forms("reduce", dict(f=F), oc(lambda b, f: b.reduce(f)), oc(lambda b, f: block.reduce(f)(b)), oc(s_reduce), view=same)
forms("forall", dict(f=PR), lambda b, f: b.forall(f), lambda b, f: block.forall(f)(b), s_forall, view=same)
c("sum", dict(xs=INTS), lambda xs: (Block(xs).sum(), block.sum(Block(xs))), lambda xs: (s_sum(xs), s_sum(xs)))
forms("sum_by", dict(f=FI), lambda b, f: b.sum_by(f), lambda b, f: block.sum_by(f)(b), s_sum_by, view=same)
c("contains", dict(xs=SeqT(Atom), x=Atom), lambda xs, x: x in Block(xs), s_contains)


# ---- equality: same elements
def s_eq(xs, ys):
    return xs == ys


c("eq", dict(xs=SeqT(Atom), ys=SeqT(Atom)), lambda xs, ys: Block(xs) == Block(ys), s_eq)
c("eq reflexive", dict(xs=SeqT(Atom)), lambda xs: (Block(xs) == Block(list(xs)), Block(xs) != Block(xs)), lambda xs: (True, False))


# ---- sorting: a stable sort by key
KEYS, FK = SeqT(Key), FunT(Key)
c("sort (method)", dict(xs=KEYS, r=Bool), lambda xs, r: (lambda b: (v(b.sort(r)), tuple(b)))(Block(xs)), lambda xs, r: (tuple(sorted(xs, reverse=r)), xs))
c("sort default", dict(xs=KEYS), lambda xs: (v(Block(xs).sort()), v(block.sort()(Block(xs)))), lambda xs: (tuple(sorted(xs)),) * 2)
c("sort (module)", dict(xs=KEYS, r=Bool), lambda xs, r: v(block.sort(r)(Block(xs))), lambda xs, r: tuple(sorted(xs, reverse=r)))
forms("sort_with", dict(f=FK, r=Bool), lambda b, f, r: b.sort_with(f, r), lambda b, f, r: block.sort_with(f, r)(b), lambda xs, f, r: tuple(sorted(xs, key=f, reverse=r)))
forms("sort_with default", dict(f=FK), lambda b, f: b.sort_with(f), lambda b, f: block.sort_with(f)(b), lambda xs, f: tuple(sorted(xs, key=f)))


# ---- unfold
FU = FunT(OptT(TupT(Any, Any)))


def s_unfold(s, f):
    out = []
    while True:
        o = f(s)
        if o.tag != "some":
            return tuple(out)
        x, s = o.some
        out.append(x)


c("unfold (method)", dict(s=Any, f=FU), lambda s, f: v(Block.unfold(f, s)), s_unfold)
c("unfold (module)", dict(s=Any, f=FU), lambda s, f: v(block.unfold(f)(s)), s_unfold)

# ---- dict: the elements, those that know how to dump themselves dumped
c("dict of plain values", dict(xs=INTS), lambda xs: (Block(xs).dict(), block.dict(Block(xs))), lambda xs: (list(xs), list(xs)))
c("dict nested", dict(xs=INTS, ys=INTS), lambda xs, ys: Block([Block(xs), Block(ys)]).dict(), lambda xs, ys: [list(xs), list(ys)])
c("equality with a tuple", dict(xs=SeqT(Atom), ys=SeqT(Atom)), lambda xs, ys: (Block(xs) == ys, Block(xs) != ys, Block(xs) == xs, Block(xs) == None), lambda xs, ys: (xs == ys, xs != ys, True, False))  # noqa: E711

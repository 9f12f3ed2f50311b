"""C10: Seq operations.  The source is the environment: every pull of an element, every callback and every element delivered is an
observable event, and the consumer may stop at any point and iterate again; so the equivalence with the ghost generators says which
elements come out, when the source is read, when callbacks run and that a second iteration starts afresh."""
from expression import Nothing, Some
from expression.collections import Block, Seq, seq
from expression.core import pipe
from pv.lang import Any, Atom, Bool, FunT, Int, IntT, Key, OptT, SeqT, TupT, ask, contract, emit, fresh
from contracts.util import outcome

P = "C10"
F, PR, FO, NAT, FI = FunT(Any), FunT(Bool), FunT(OptT()), IntT(0), FunT(Int)
FS = FunT(SeqT())
PULL, PULL2, PULL3, PULLQ, PULLI = FunT(OptT()), FunT(OptT(TupT(Any, Any))), FunT(OptT(TupT(Any, Any, Any))), FunT(OptT(SeqT())), FunT(OptT(Int))
PULLK = FunT(OptT(Key))


class Src:
    """a re-iterable source: each iteration asks the environment for its elements, one by one"""

    def __init__(self, pull):
        self.pull, self.n = pull, 0

    def __iter__(self):
        self.n += 1
        n = self.n  # which iteration of the source this is
        while True:
            o = self.pull(n)
            if o.tag != "some":
                return
            yield o.some


class Once:
    """the ghost view: a generator function with its arguments"""

    def __init__(self, gen, *args):
        self.gen, self.args = gen, args

    def __iter__(self):
        return self.gen(*self.args)


def run(it):
    """a consumer that takes any number of elements"""
    it = iter(it)
    while ask("more"):
        try:
            x = next(it)
        except StopIteration:
            emit("end")
            return
        emit("got", x)


def twice(r):
    emit("built")
    run(r)
    run(r)


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def lazy(name, args, forms, gen, pull=PULL, **k):
    for fn, f in forms.items():
        def code(pull, *a, f=f):
            twice(f(Src(pull), *a))

        def spec(pull, *a):
            twice(Once(gen, Src(pull), *a))
        c(f"{name} ({fn})", dict(pull=pull, **args), code, spec, **k)


def value(name, args, forms, ghost, pull=PULL, **k):
    for fn, f in forms.items():
        c(f"{name} ({fn})", dict(pull=pull, **args), lambda pull, *a, f=f: f(Src(pull), *a), lambda pull, *a: ghost(Src(pull), *a), **k)


# ---- the sequence itself
def g_id(xs):
    for x in xs:
        yield x


lazy("seq", {}, dict(Seq=lambda s: Seq(s), of_iterable=lambda s: Seq.of_iterable(s), module=lambda s: seq.of_iterable(s), of_list=lambda s: seq.of_list(s),
                     nested=lambda s: Seq(Seq(s))), g_id)
lazy("delay", {}, dict(method=lambda s: Seq.delay(lambda: s), module=lambda s: seq.delay(lambda: s)), g_id)
c("of", dict(xs=SeqT()), lambda xs: (twice(Seq.of(*xs)), twice(seq.of(*xs)))[0], lambda xs: (twice(xs), twice(xs))[0])
c("empty", {}, lambda: (twice(Seq.empty()), twice(seq.empty), twice(Seq()))[0], lambda: (twice(()), twice(()), twice(()))[0])
c("singleton", dict(x=Any), lambda x: twice(seq.singleton(x)), lambda x: twice((x,)))
c("range", dict(a=Int, b=Int), lambda a, b: twice(Seq.range(a, b)), lambda a, b: twice(range(a, b)))
c("range module", dict(a=Int), lambda a: twice(seq.range(a)), lambda a: twice(range(a)))
c("range step", dict(a=Int, b=Int), lambda a, b: twice(seq.range(a, b, 2)), lambda a, b: twice(range(a, b, 2)))


# ---- element-wise
def g_map(xs, f):
    for x in xs:
        yield f(x)


def g_mapi(xs, f):
    i = 0
    for x in xs:
        yield f(i, x)
        i += 1


def g_starmap(xs, f):
    for x in xs:
        yield f(*x)


def g_filter(xs, f):
    for x in xs:
        if f(x):
            yield x


def g_choose(xs, f):
    for x in xs:
        o = f(x)
        if o.tag == "some":
            yield o.some


def g_collect(xs, f):
    for x in xs:
        for y in f(x):
            yield y


def g_concat(xs):
    for x in xs:
        for y in x:
            yield y


def g_scan(xs, f, s):
    yield s
    for x in xs:
        s = f(s, x)
        yield s


def g_pairwise(xs):
    it = iter(xs)
    try:
        a = next(it)
    except StopIteration:
        return
    for b in it:
        yield (a, b)
        a = b


def g_skip(xs, n):
    i = 0
    for x in xs:
        if i >= n:
            yield x
        i += 1


def g_take(xs, n):
    if n > 0:
        i = 0
        for x in xs:
            i += 1
            yield x
            if i == n:
                return


lazy("map", dict(f=F), dict(method=lambda s, f: Seq(s).map(f), module=lambda s, f: seq.map(f)(s), pipe=lambda s, f: pipe(s, seq.map(f))), g_map)
lazy("mapi", dict(f=F), dict(method=lambda s, f: Seq(s).mapi(f), module=lambda s, f: seq.mapi(f)(s)), g_mapi)
lazy("starmap", dict(f=F), dict(method=lambda s, f: Seq(s).starmap(f), module=lambda s, f: seq.starmap(f)(s), map2=lambda s, f: seq.map2(f)(s)), g_starmap, pull=PULL2)
lazy("map3", dict(f=F), dict(module=lambda s, f: seq.map3(f)(s)), g_starmap, pull=PULL3)
lazy("filter", dict(f=PR), dict(method=lambda s, f: Seq(s).filter(f), module=lambda s, f: seq.filter(f)(s)), g_filter)
lazy("choose", dict(f=FO), dict(method=lambda s, f: Seq(s).choose(f), module=lambda s, f: seq.choose(f)(s)), g_choose)
lazy("collect", dict(f=FS), dict(method=lambda s, f: Seq(s).collect(f), module=lambda s, f: seq.collect(f)(s)), g_collect)
lazy("concat", {}, dict(method=lambda s: Seq(s).concat()), g_concat, pull=PULLQ)
lazy("scan", dict(f=F, s=Any), dict(method=lambda s, f, i: Seq(s).scan(f, i), module=lambda s, f, i: seq.scan(f, i)(s)), g_scan)
lazy("pairwise", {}, dict(method=lambda s: Seq(s).pairwise(), module=lambda s: seq.pairwise(s)), g_pairwise)
lazy("skip", dict(n=NAT), dict(method=lambda s, n: Seq(s).skip(n), module=lambda s, n: seq.skip(n)(s)), g_skip)
lazy("tail", {}, dict(method=lambda s: Seq(s).tail(), module=lambda s: seq.tail(s)), lambda s: g_skip(s, 1))
lazy("take", dict(n=NAT), dict(method=lambda s, n: Seq(s).take(n), module=lambda s, n: seq.take(n)(s)), g_take)


def two(name, forms, gen, **k):
    for fn, f in forms.items():
        def code(p, q, f=f):
            twice(f(Src(p), Src(q)))

        def spec(p, q):
            twice(Once(gen, Src(p), Src(q)))
        c(f"{name} ({fn})", dict(p=PULL, q=PULL), code, spec, **k)


def g_append(xs, ys):
    for x in xs:
        yield x
    for y in ys:
        yield y


def g_zip(xs, ys):
    # the order in which the iterators are created is part of the observable behaviour
    a = iter(xs)
    b = iter(ys)
    while True:
        try:
            x = next(a)
            y = next(b)
        except StopIteration:
            return
        yield (x, y)


two("append", dict(method=lambda a, b: Seq(a).append(b), module=lambda a, b: seq.append(b)(a), concat=lambda a, b: seq.concat(a, b)), g_append)
two("zip", dict(method=lambda a, b: Seq(a).zip(b), module=lambda a, b: seq.zip(a)(b)), g_zip)


def g_append3(xs, ys, zs):
    for s in (xs, ys, zs):
        for x in s:
            yield x


for fn, f in dict(method=lambda a, b, d: Seq(a).append(b, d), module=lambda a, b, d: seq.append(b, d)(a), concat=lambda a, b, d: seq.concat(a, b, d)).items():
    c(f"append of three ({fn})", dict(p=PULL, q=PULL, r=PULL), lambda p, q, r, f=f: twice(f(Src(p), Src(q), Src(r))),
      lambda p, q, r: twice(Once(g_append3, Src(p), Src(q), Src(r))))


# ---- generators
FU = FunT(OptT(TupT(Any, Any)))


def g_unfold(s, f):
    while True:
        o = f(s)
        if o.tag != "some":
            return
        x, s = o.some
        yield x


def g_infinite(f):
    i = 0
    while True:
        yield f(i)
        i += 1


c("unfold (method)", dict(s=Any, f=FU), lambda s, f: twice(Seq.unfold(f, s)), lambda s, f: twice(Once(g_unfold, s, f)))
c("unfold (module)", dict(s=Any, f=FU), lambda s, f: twice(seq.unfold(f)(s)), lambda s, f: twice(Once(g_unfold, s, f)))
c("init_infinite", dict(f=F), lambda f: twice(seq.init_infinite(f)), lambda f: twice(Once(g_infinite, f)))
c("infinite", {}, lambda: twice(seq.infinite), lambda: twice(Once(g_infinite, lambda i: i)))


# ---- values
def v_fold(xs, f, s):
    for x in xs:
        s = f(s, x)
    return s


def v_head(xs):
    for x in xs:
        return x
    raise ValueError


def v_length(xs):
    n = 0
    for _ in xs:
        n += 1
    return n


def v_sum(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def v_sum_by(xs, f):
    t = 0
    for x in xs:
        t = t + f(x)
    return t


def v_iter(xs, f):
    for x in xs:
        f(x)


def v_list(xs):
    out = []
    for x in xs:
        out.append(x)
    return tuple(out)


def v_find(xs, p):
    i = 0
    for x in xs:
        if p(x):
            return Some(i)
        i += 1
    return Nothing


def v_pick(xs, f):
    for x in xs:
        o = f(x)
        if o.tag == "some":
            return o
    return Nothing


def v_fold_back(xs, f, s):
    ys = []
    for x in xs:
        ys.append(x)
    i = len(ys) - 1
    while i >= 0:
        s = f(ys[i], s)
        i -= 1
    return s


def best(better):
    def f(xs):
        first = True
        b = None
        for x in xs:
            if first:
                b = x
                first = False
            elif better(x, b):
                b = x
        if first:
            raise ValueError
        return b
    return f


def vl(b):
    if isinstance(b, Block):
        return tuple(b)
    return ("not a block", b)


value("fold", dict(f=F, s=Any), dict(method=lambda s, f, i: Seq(s).fold(f, i), module=lambda s, f, i: seq.fold(f, i)(s)), v_fold)
value("head", {}, dict(method=lambda s: outcome(Seq(s).head), module=lambda s: outcome(seq.head, s)), lambda s: outcome(v_head, s))
value("length", {}, dict(method=lambda s: Seq(s).length(), module=lambda s: seq.length(s)), v_length)
value("sum", {}, dict(method=lambda s: Seq(s).sum(), module=lambda s: seq.sum(s)), v_sum, pull=PULLI)
value("sum_by", dict(f=FI), dict(method=lambda s, f: Seq(s).sum_by(f), module=lambda s, f: seq.sum_by(f)(s)), v_sum_by)
value("iter", dict(f=F), dict(module=lambda s, f: seq.iter(f)(s)), v_iter)
value("to_list", {}, dict(method=lambda s: vl(Seq(s).to_list()), module=lambda s: vl(seq.to_list(s))), v_list)
value("try_find_index", dict(f=PR), dict(method=lambda s, f: Seq(s).try_find_index(f), module=lambda s, f: seq.try_find_index(f)(s)), v_find)
value("try_pick", dict(f=FO), dict(method=lambda s, f: Seq(s).try_pick(f), module=lambda s, f: seq.try_pick(f)(s)), v_pick)
value("fold_back", dict(f=F, s=Any), dict(module=lambda s, f, i: seq.fold_back(f, s)(i)), v_fold_back)
FK = FunT(Key)
value("max", {}, dict(module=lambda s: outcome(seq.max, s)), lambda s: outcome(best(lambda x, b: x > b), s), pull=PULLK)
value("min", {}, dict(module=lambda s: outcome(seq.min, s)), lambda s: outcome(best(lambda x, b: x < b), s), pull=PULLK)


def proj(s, f):
    for x in s:
        yield f(x)


value("max_by", dict(f=FK), dict(module=lambda s, f: outcome(seq.max_by(f), s)), lambda s, f: outcome(lambda: best(lambda x, b: x > b)(proj(s, f))))
value("min_by", dict(f=FK), dict(module=lambda s, f: outcome(seq.min_by(f), s)), lambda s, f: outcome(lambda: best(lambda x, b: x < b)(proj(s, f))))

# ---- pipelines of operations stay lazy
lazy("map then filter then take", dict(f=F, p=PR, n=NAT), dict(method=lambda s, f, p, n: Seq(s).map(f).filter(p).take(n), pipe=lambda s, f, p, n: pipe(s, seq.map(f), seq.filter(p), seq.take(n))),
     lambda s, f, p, n: g_take(g_filter(g_map(s, f), p), n))
lazy("skip then map", dict(f=F, n=NAT), dict(method=lambda s, f, n: Seq(s).skip(n).map(f)), lambda s, f, n: g_map(g_skip(s, n), f))

# ---- the methods that return a Seq return one, so that they chain
METHODS = dict(append=lambda s, f, n, ys: s.append(ys), filter=lambda s, f, n, ys: s.filter(f), choose=lambda s, f, n, ys: s.choose(f),
               concat=lambda s, f, n, ys: s.concat(), collect=lambda s, f, n, ys: s.collect(f), map=lambda s, f, n, ys: s.map(f),
               starmap=lambda s, f, n, ys: s.starmap(f), mapi=lambda s, f, n, ys: s.mapi(f), pairwise=lambda s, f, n, ys: s.pairwise(),
               skip=lambda s, f, n, ys: s.skip(n), tail=lambda s, f, n, ys: s.tail(), take=lambda s, f, n, ys: s.take(n))
for name, m in METHODS.items():
    c(f"{name} gives a Seq", dict(pull=PULL, f=F, n=NAT, ys=SeqT()), lambda pull, f, n, ys, m=m: isinstance(m(Seq(Src(pull)), f, n, ys), Seq), lambda pull, f, n, ys: True)
CONS = dict(of=lambda s, x: Seq.of(x), of_iterable=lambda s, x: Seq.of_iterable(s), empty=lambda s, x: Seq.empty(), mof=lambda s, x: seq.of(x),
            mof_iterable=lambda s, x: seq.of_iterable(s), singleton=lambda s, x: seq.singleton(x), mempty=lambda s, x: seq.empty)
for name, m in CONS.items():
    c(f"{name} constructs a Seq", dict(pull=PULL, x=Any), lambda pull, x, m=m: isinstance(m(Src(pull), x), Seq), lambda pull, x: True)


class Dictable:
    def __init__(self, x):
        self.x = x

    def dict(self):
        emit("dict")
        return ("dict-of", self.x)


def dictables(s):
    for x in s:
        yield Dictable(x)


def g_dict(s):
    for x in s:
        emit("dict")
        yield ("dict-of", x)


c("dict of plain values", dict(pull=PULLI), lambda pull: run(Seq(Src(pull)).dict()), lambda pull: run(Src(pull)))
c("dict of values with their own", dict(pull=PULL), lambda pull: run(Seq(Once(dictables, Src(pull))).dict()), lambda pull: run(g_dict(Src(pull))))

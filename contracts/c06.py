"""C06: a Map is a finite map for every history of operations."""
from contracts.trees import *  # noqa: F403

P = "C06"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **{**TREE, **k})


# ---------------------------------------------------------------- the tree functions
def joined(f):
    """the arguments of a join of two trees (precondition)"""
    def g(j):
        t1, k, v, t2 = j
        if not (all_lt(flat(t1), k) and all_gt(flat(t2), k)):
            return "n/a"
        return f(t1, k, v, t2)
    return g


c("mk", dict(j=JoinT(2)), joined(lambda a, k, v, b: obs(maptree.mk(a, k, v, b), a, b)),
  joined(lambda a, k, v, b: (flat(a) + ((k, v),) + flat(b), flat(a), flat(b))))
c("rebalance", dict(j=JoinT(3)), joined(lambda a, k, v, b: obs(maptree.rebalance(a, k, v, b), a, b)),
  joined(lambda a, k, v, b: (flat(a) + ((k, v),) + flat(b), flat(a), flat(b))))
RB = by_name(rebalance=g_rebalance)
RS = {**RB, **by_name(splice_out_successor=g_splice)}

c("tree add", dict(k=Key, v=Any, t=Tree), lambda k, v, t: obs(maptree.add(k, v, t), t),
  lambda k, v, t: (insert(flat(t), k, v), flat(t)), summaries=RB)
c("tree remove", dict(k=Key, t=Tree), lambda k, t: obs(maptree.remove(k, t), t), lambda k, t: (delete(flat(t), k), flat(t)), summaries=RS)


def sp_code(t):
    if ht(t) == 0:
        return "n/a"
    k, v, r = maptree.splice_out_successor(t)
    return (((k, v),) + flat(r), flat(t))


c("tree splice_out_successor", dict(t=Tree), sp_code, lambda t: (flat(t), flat(t)) if ht(t) > 0 else "n/a", summaries=RB)
FO = FunT(OptT())


def s_change(k, u, t):
    r = u(s_try_find(k, flat(t)))
    if r.tag == "some":
        return (insert(flat(t), k, r.some), flat(t))
    return (delete(flat(t), k), flat(t))


c("tree change", dict(k=Key, u=FO, t=Tree), lambda k, u, t: obs(maptree.change(k, u, t), t), s_change, summaries=RS)
c("tree try_find", dict(k=Key, t=Tree), lambda k, t: maptree.try_find(k, t), lambda k, t: s_try_find(k, flat(t)))
c("tree mem", dict(k=Key, t=Tree), lambda k, t: maptree.mem(k, t), lambda k, t: s_mem(k, flat(t)))


# ---------------------------------------------------------------- filtering and building: repeated insertion
def s_filter(f, q, acc):
    for k, v in q:
        if f(k, v):
            acc = ins(acc, k, v)
    return acc


def s_partition(f, q, a, b):
    for k, v in reversed(q):
        if f(k, v):
            a = ins(a, k, v)
        else:
            b = ins(b, k, v)
    return (a, b)


def s_build(xs):
    q = ()
    for k, v in xs:
        q = ins(q, k, v)
    return q


AD = by_name(add=g_add_o)
FB = FunT(Bool)
c("tree filter_aux", dict(f=FB, t=Tree, acc=Tree), lambda f, t, acc: flat(maptree.filter_aux(f, t, acc)), lambda f, t, acc: s_filter(f, flat(t), flat(acc)),
  summaries=AD)
c("tree partition_aux", dict(f=FB, t=Tree, a=Tree, b=Tree), lambda f, t, a, b: tuple([flat(x) for x in maptree.partition_aux(f, t, (a, b))]),
  lambda f, t, a, b: s_partition(f, flat(t), flat(a), flat(b)), summaries=AD,
  cost=9, secs=300)
c("tree of_seq", dict(xs=PAIRS), lambda xs: flat(maptree.of_seq(xs)), s_build, summaries=AD)
c("tree of_list", dict(xs=PAIRS), lambda xs: flat(maptree.of_list(Block(xs))), s_build, summaries=AD)
c("tree filter", dict(f=FB, t=Tree), lambda f, t: (flat(maptree.filter(f, t)), flat(t)), lambda f, t: (s_filter(f, flat(t), ()), flat(t)),
  summaries={**AD, **by_name(filter_aux=g_filter_aux)})
c("tree partition", dict(f=FB, t=Tree), lambda f, t: tuple([flat(x) for x in maptree.partition(f, t)]), lambda f, t: s_partition(f, flat(t), (), ()),
  summaries={**AD, **by_name(partition_aux=g_partition_aux)})


def s_find(k, q):
    r = lookup(q, k)
    if r.tag != "some":
        raise KeyError("Key not found")
    return r.some


c("tree find", dict(k=Key, t=Tree), lambda k, t: maptree.find(k, t), lambda k, t: s_find(k, flat(t)), summaries=by_name(try_find=g_try_find))
c("tree is_empty", dict(t=Tree), lambda t: maptree.is_empty(t), lambda t: len(flat(t)) == 0)


# ---------------------------------------------------------------- Map and the curried functions, over the contracts of the trees
ALL = by_name(add=g_add, remove=g_remove, change=g_change, try_find=g_try_find, mem=g_mem, find=lambda k, m: s_find(k, flat(m)), filter=lambda f, m: g_filter_aux(f, m, Nothing),
              partition=lambda f, m: g_partition_aux(f, m, (Nothing, Nothing)), try_pick=g_try_pick, size=g_size, to_list=g_to_list, mk_iterator=g_mk_iterator)
OPAQUE = {**ALL, **AD}


def ents(m):
    """the entries of a map, by its public conversion"""
    return tuple(m.to_list())


def upd(op):
    """the entries of the result, and the entries of the argument afterwards"""
    def g(t, *a):
        m = Map(t)
        r = op(m, *a)
        return (ents(r), ents(m), isinstance(r, Map))
    return g


def s_upd(op):
    return lambda t, *a: (op(flat(t), *a), flat(t), True)


def both(name, args, method, func, spec, **k):
    k = {"summaries": ALL, **k}
    c("Map." + name, args, method, spec, **k)
    c("map." + name, args, func, spec, **k)


T1 = dict(t=Tree)
both("add", dict(t=Tree, k=Key, v=Any), upd(lambda m, k, v: m.add(k, v)), upd(lambda m, k, v: map_.add(k, v)(m)), s_upd(insert))
both("remove", dict(t=Tree, k=Key), upd(lambda m, k: m.remove(k)), upd(lambda m, k: map_.remove(k)(m)), s_upd(delete))


def s_change_q(q, k, u):
    r = u(s_try_find(k, q))
    return insert(q, k, r.some) if r.tag == "some" else delete(q, k)


both("change", dict(t=Tree, k=Key, u=FO), upd(lambda m, k, u: m.change(k, u)), upd(lambda m, k, u: map_.change(k, u)(m)), s_upd(s_change_q))
both("try_find", dict(t=Tree, k=Key), lambda t, k: Map(t).try_find(k), lambda t, k: map_.try_find(k)(Map(t)), lambda t, k: lookup(flat(t), k))
both("find", dict(t=Tree, k=Key), lambda t, k: Map(t)[k], lambda t, k: map_.find(k)(Map(t)), lambda t, k: s_find(k, flat(t)))
both("contains_key", dict(t=Tree, k=Key), lambda t, k: (Map(t).contains_key(k), k in Map(t)), lambda t, k: (map_.contains_key(k)(Map(t)),) * 2,
     lambda t, k: (s_mem(k, flat(t)),) * 2)


def tgv(t, k, x):
    out = [x]
    return (Map(t).try_get_value(k, out), tuple(out))


def s_tgv(t, k, x):
    r = lookup(flat(t), k)
    return (True, (x, r.some)) if r.tag == "some" else (False, (x,))


c("Map.try_get_value", dict(t=Tree, k=Key, x=Any), tgv, s_tgv, summaries=ALL)


def s_get(t, k, d):
    r = lookup(flat(t), k)
    return r.some if r.tag == "some" else d


c("Map.get", dict(t=Tree, k=Key, d=Any), lambda t, k, d: (Map(t).get(k, d), Map(t).get(k)), lambda t, k, d: (s_get(t, k, d), s_get(t, k, None)), summaries=ALL)
both("filter", dict(t=Tree, f=FB), upd(lambda m, f: m.filter(f)), upd(lambda m, f: map_.filter(f)(m)), s_upd(lambda q, f: s_filter(f, q, ())), summaries=OPAQUE)


def two(op):
    def g(t, f):
        m = Map(t)
        a, b = op(m, f)
        return (ents(a), ents(b), ents(m))
    return g


both("partition", dict(t=Tree, f=FB), two(lambda m, f: m.partition(f)), two(lambda m, f: map_.partition(f)(m)), lambda t, f: s_partition(f, flat(t), (), ()) + (flat(t),),
     summaries=OPAQUE)
both("of_seq", dict(xs=PAIRS), lambda xs: ents(Map.of_seq(xs)), lambda xs: ents(map_.of_seq(xs)), s_build, summaries=OPAQUE)
both("create", dict(xs=PAIRS), lambda xs: ents(Map.create(xs)), lambda xs: ents(map_.create(xs)), s_build, summaries=OPAQUE)
both("of_list", dict(xs=PAIRS), lambda xs: ents(Map.of_list(list(xs))), lambda xs: ents(map_.of_list(list(xs))), s_build, summaries=OPAQUE)
both("of_block", dict(xs=PAIRS), lambda xs: ents(Map.of_block(Block(xs))), lambda xs: ents(map_.of_block(Block(xs))), s_build, summaries=OPAQUE)
both("is_empty", T1, lambda t: (Map(t).is_empty(), bool(Map(t))), lambda t: (map_.is_empty(Map(t)), bool(Map(t))), lambda t: (len(flat(t)) == 0, len(flat(t)) > 0))
both("empty", {}, lambda: (ents(Map.empty()), bool(Map()), Map().is_empty()), lambda: (ents(map_.empty), bool(map_.empty), map_.empty.is_empty()), lambda: ((), False, True))
both("of", dict(x=Any, y=Any), lambda x, y: (ents(Map.of()), ents(Map.of(a=x)), ents(Map.of(b=x, a=y))), lambda x, y: (ents(map_.of()), ents(map_.of(a=x)), ents(map_.of(b=x, a=y))),
     lambda x, y: ((), s_build((("a", x),)), s_build((("b", x), ("a", y)))), summaries=OPAQUE)


def s_pick(t, f):
    r = g_try_pick(f, t)
    if r.tag == "some":
        return r.some
    raise KeyError()


both("try_pick", dict(t=Tree, f=FO), lambda t, f: Map(t).try_pick(f), lambda t, f: map_.try_pick(f)(Map(t)), lambda t, f: g_try_pick(f, t))
c("map.pick", dict(t=Tree, f=FO), lambda t, f: map_.pick(f)(Map(t)), s_pick, summaries=ALL)


# ---------------------------------------------------------------- histories, end to end without summaries (concrete runs only)
def hist(ops):
    m, old, log = Map.empty(), [], []
    for o, k, v in ops:
        if o == 0:
            m2 = m.remove(k)
        elif o == 1:
            m2 = m.change(k, lambda x: Nothing if x.is_some() else Some(v))
        elif o == 2:
            m2 = m.filter(lambda a, b: a != k)
        else:
            m2 = m.add(k, v)
        old.append((m, ents(m)))
        log.append((k in m2, m2.try_find(k).to_optional(), len(m2), ents(m2)))
        m = m2
    return (tuple(log), all(ents(a) == b for a, b in old))


def s_hist(ops):
    d, log = {}, []
    for o, k, v in ops:
        if o == 1 and k not in d or o > 2:
            d[k] = v
        else:
            d.pop(k, None)
        log.append((k in d, d.get(k), len(d), tuple(sorted(d.items(), key=lambda x: x[0]))))
    return (tuple(log), True)


c("history", dict(ops=SeqT(TupT(IntT(0, 6), Key, Any))), hist, s_hist, native_only="end-to-end cross-check of the composed operations; each is under contract above", summaries={})

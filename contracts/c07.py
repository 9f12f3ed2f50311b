"""C07: traversals of a Map visit every binding once, in increasing key order; equality and hashing follow the contents."""
from contracts.trees import *  # noqa: F403

P = "C07"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **{**TREE, **k})


c("tree size", dict(t=Tree), lambda t: maptree.size(t), lambda t: len(flat(t)))
c("tree size_aux", dict(n=Int, t=Tree), lambda n, t: maptree.size_aux(n, t), lambda n, t: n + len(flat(t)))
c("tree iter", dict(f=F2, t=Tree), lambda f, t: maptree.iter(f, t), lambda f, t: g_iter(f, t))
c("tree try_pick", dict(f=FunT(OptT()), t=Tree), lambda f, t: maptree.try_pick(f, t), lambda f, t: g_try_pick(f, t))
c("tree exists", dict(f=FunT(Bool), t=Tree), lambda f, t: maptree.exists(f, t), lambda f, t: g_exists(f, t))
c("tree forall", dict(f=FunT(Bool), t=Tree), lambda f, t: maptree.forall(f, t), lambda f, t: g_forall(f, t))
c("tree fold", dict(f=F2, x=Any, t=Tree), lambda f, x, t: maptree.fold(f, x, t), lambda f, x, t: g_fold(f, x, t))
c("tree fold_back", dict(f=F2, x=Any, t=Tree), lambda f, x, t: maptree.fold_back(f, t, x), lambda f, x, t: g_fold_back(f, t, x))
c("tree map", dict(f=F2, t=Tree), lambda f, t: flat(maptree.map(f, t)), lambda f, t: s_map(f, flat(t)))


# ---------------------------------------------------------------- iteration
def g_collapse(stack):
    return Block(new_trees(sflat(tuple(stack))))


def g_loop(m, acc):
    return Block(flat(m) + tuple(acc))


STACK = SeqT(Tree)
CREC = {**REC, "collapseLHS": g_collapse, "to_list.<locals>.loop": g_loop}


def co_code(ts):
    r = tuple(maptree.collapseLHS(Block(ts)))
    return (sflat(r), headleaf(r))


c("collapseLHS", dict(ts=STACK), co_code, lambda ts: (sflat(ts), True), rec=CREC)
c("tree to_list", dict(t=Tree), lambda t: tuple(maptree.to_list(t)), flat, rec=CREC)


def it_code(t):
    out = ()
    for kv in maptree.mk_iterator(t):
        out = out + (kv,)
    return out


c("tree iterator", dict(t=Tree), it_code, flat, rec=CREC, summaries=by_name(collapseLHS=g_collapse))


# ---------------------------------------------------------------- Map over the contracts of the trees
ALL = by_name(size=g_size, iter=g_iter, exists=g_exists, forall=g_forall, fold=g_fold, fold_back=g_fold_back, map=g_map, to_list=g_to_list, mk_iterator=g_mk_iterator,
              find=lambda k, m: g_find(k, m), mem=g_mem, try_find=g_try_find)
T1 = dict(t=Tree)
FB = FunT(Bool)


def g_find(k, m):
    r = lookup(flat(m), k)
    if r.tag != "some":
        raise KeyError("Key not found")
    return r.some


def both(name, args, method, func, spec, **k):
    k = {"summaries": ALL, **k}
    c("Map." + name, args, method, spec, **k)
    if func is not None:
        c("map." + name, args, func, spec, **k)


both("count", T1, lambda t: len(Map(t)), lambda t: map_.count(Map(t)), lambda t: len(flat(t)))
both("iterate", dict(t=Tree, f=F2), lambda t, f: Map(t).iterate(f), lambda t, f: map_.iterate(f)(Map(t)), lambda t, f: g_iter(f, t))
both("exists", dict(t=Tree, f=FB), lambda t, f: Map(t).exists(f), lambda t, f: map_.exists(f)(Map(t)), lambda t, f: g_exists(f, t))
both("for_all", dict(t=Tree, f=FB), lambda t, f: Map(t).for_all(f), lambda t, f: map_.for_all(f)(Map(t)), lambda t, f: g_forall(f, t))
both("fold", dict(t=Tree, f=F2, x=Any), lambda t, f, x: Map(t).fold(f, x), lambda t, f, x: map_.fold(f, x)(Map(t)), lambda t, f, x: g_fold(f, x, t))
both("fold_back", dict(t=Tree, f=F2, x=Any), lambda t, f, x: Map(t).fold_back(f, x), lambda t, f, x: map_.fold_back(f, Map(t))(x), lambda t, f, x: g_fold_back(f, t, x))
both("map", dict(t=Tree, f=F2), lambda t, f: tuple(Map(t).map(f).to_list()), lambda t, f: tuple(map_.map(f)(Map(t)).to_list()), lambda t, f: s_map(f, flat(t)))
both("to_list", T1, lambda t: tuple(Map(t).to_list()), lambda t: tuple(map_.to_list(Map(t))), flat)


def seq2(s):
    """both iterations of a sequence"""
    return (tuple(s), tuple(s))


both("to_seq", T1, lambda t: seq2(Map(t).to_seq()), lambda t: seq2(map_.to_seq(Map(t))), lambda t: (flat(t), flat(t)))


def s_keys(q):
    out = ()
    for k, v in q:
        out = out + (k,)
    return out


both("iter", T1, lambda t: tuple(Map(t)), None, lambda t: s_keys(flat(t)))
both("eq", dict(t=Tree, u=Tree), lambda t, u: Map(t) == Map(u), None, lambda t, u: flat(t) == flat(u))
both("ne", dict(t=Tree, u=Tree), lambda t, u: Map(t) != Map(u), None, lambda t, u: flat(t) != flat(u))
both("eq of something else", dict(t=Tree, x=Any), lambda t, x: (Map(t) == x, Map(t) == flat(t)), None, lambda t, x: (False, False))


def hash1(t, u):
    return hash(Map(t)) if flat(t) == flat(u) else "n/a"


both("hash", dict(t=Tree, u=Tree), hash1, None, lambda t, u: hash(Map(u)) if flat(t) == flat(u) else "n/a", both=True)
both("hash is a number", dict(t=Tree), lambda t: isinstance(hash(Map(t)), int), None, lambda t: True, plain=True)
MM = "expression.collections.map"
both("items", T1, lambda t: tuple(Map(t).items()), None, flat, overrides={(MM, "dict"): lambda it: tuple(it), (MM, "ItemsView"): lambda d: d},
     assume=["dict() of pairs with distinct keys keeps the pairs and their order, and ItemsView iterates them"])
both("keys", T1, lambda t: tuple(Map(t).keys()), None, lambda t: s_keys(flat(t)))
both("values", T1, lambda t: tuple(Map(t).values()), None, lambda t: s_vals(flat(t)))


def s_vals(q):
    out = ()
    for k, v in q:
        out = out + (v,)
    return out

"""Ghost contracts of the map tree functions, shared by C06 (content), C07 (traversal) and C08 (shape).

Each recursive function is verified by induction on the tree: its body is the real code, a recursive call stands for the
contract (the ghost function below), and so does a call of another tree function."""
from expression import Nothing, Option, Some
from expression.collections import Block, Map, maptree
from expression.collections import map as map_
from pv.lang import Any, Bool, FunT, Int, IntT, MKey as Key, OptT, SeqT, TupT, contract, emit
from pv.tree import (JoinT, Tree, above, all_gt, all_lt, at, below, classes, flat, headleaf, ht, ins, lookup, new_tree, like_tree, new_trees, sflat, span, split_first, wf)

LEAF, NODE = classes()
PAIRS = SeqT(TupT(Key, Any))
F2 = FunT()


def require(what, b):
    """precondition of a summarised call: an unprovable one is an event the specification does not have"""
    if not b:
        emit("precondition", what)


def insert(q, k, v):
    return below(q, k) + ((k, v),) + above(q, k)


def delete(q, k):
    return below(q, k) + above(q, k)


# ---------------------------------------------------------------- contracts of the tree functions, as ghost programs
def g_rebalance(t1, k, v, t2):
    require("rebalance: keys in order", wf(t1) and wf(t2) and all_lt(flat(t1), k) and all_gt(flat(t2), k))
    return new_tree(flat(t1) + ((k, v),) + flat(t2), 1, 1 + max(ht(t1), ht(t2)))


def g_rebalance_h(t1, k, v, t2):
    a, b = ht(t1), ht(t2)
    require("rebalance: keys in order", wf(t1) and wf(t2) and all_lt(flat(t1), k) and all_gt(flat(t2), k))
    require("rebalance: heights differ by at most 3", -3 <= a - b and a - b <= 3)
    m = max(a, b)
    if -2 <= a - b and a - b <= 2:
        return new_tree(flat(t1) + ((k, v),) + flat(t2), m + 1, m + 1)
    return new_tree(flat(t1) + ((k, v),) + flat(t2), m, m + 1)


def g_add(k, v, m):
    require("add: well-formed tree", wf(m))
    return new_tree(insert(flat(m), k, v), ht(m), ht(m) + 1)


def g_add_o(k, v, m):
    """the same with the insertion itself opaque (enough where only repeated insertion matters)"""
    require("add: well-formed tree", wf(m))
    return new_tree(ins(flat(m), k, v), ht(m), ht(m) + 1)


def g_remove(k, m):
    require("remove: well-formed tree", wf(m))
    return new_tree(delete(flat(m), k), ht(m) - 1, ht(m))


def g_change(k, u, m):
    require("change: well-formed tree", wf(m))
    r = u(s_try_find(k, flat(m)))
    if r.tag == "some":
        return new_tree(insert(flat(m), k, r.some), ht(m), ht(m) + 1)
    return new_tree(delete(flat(m), k), ht(m) - 1, ht(m))


def g_splice(m):
    require("splice_out_successor: well-formed non-empty tree", wf(m) and ht(m) > 0)
    return split_first(m, ht(m) - 1, ht(m))


def s_try_find(k, q):
    return lookup(q, k)


def g_try_find(k, m):
    return lookup(flat(m), k)


def s_mem(k, q):
    return lookup(q, k).tag == "some"


def g_mem(k, m):
    return s_mem(k, flat(m))


def g_size_aux(acc, m):
    return acc + len(flat(m))


def g_size(m):
    return len(flat(m))


def g_to_list(m):
    return Block(flat(m))


def g_mk_iterator(m):
    return iter(flat(m))


def g_iter(fn, m):
    for k, v in flat(m):
        fn(k, v)


def g_try_pick(f, m):
    for k, v in flat(m):
        r = f(k, v)
        if r.tag == "some":
            return r
    return Nothing


def g_exists(f, m):
    for k, v in flat(m):
        if f(k, v):
            return True
    return False


def g_forall(f, m):
    for k, v in flat(m):
        if not f(k, v):
            return False
    return True


def g_fold(f, x, m):
    for e in flat(m):
        x = f(x, e)
    return x


def g_fold_back(f, m, x):
    for e in reversed(flat(m)):
        x = f(e, x)
    return x


def g_filter_aux(f, m, acc):
    for k, v in flat(m):
        if f(k, v):
            acc = g_add_o(k, v, acc)
    return acc


def g_partition_aux(f, m, acc):
    a, b = acc
    for k, v in reversed(flat(m)):
        if f(k, v):
            a = g_add_o(k, v, a)
        else:
            b = g_add_o(k, v, b)
    return (a, b)


def s_map(f, q):
    out = ()
    for k, v in q:
        out = out + ((k, f(k, v)),)
    return out


def g_map(f, m):
    return like_tree(s_map(f, flat(m)), m)


REC = {"add": g_add, "remove": g_remove, "change": g_change, "splice_out_successor": g_splice, "try_find": g_try_find, "mem": g_mem,
       "size_aux": g_size_aux, "iter": g_iter, "try_pick": g_try_pick, "exists": g_exists, "forall": g_forall, "fold": g_fold,
       "fold_back": g_fold_back, "filter_aux": g_filter_aux, "partition_aux": g_partition_aux, "map": g_map}


def by_name(**k):
    """summaries for the tree functions that exist under these names"""
    return {getattr(maptree, n): g for n, g in k.items() if hasattr(maptree, n)}


def obs(r, *olds):
    """contents of the result, and of the trees it was made from"""
    return (flat(r),) + tuple([flat(t) for t in olds])


TREE = dict(records=[LEAF, NODE], rec=REC)

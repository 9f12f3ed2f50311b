"""C08: well-formedness and balance of map trees."""
from contracts.trees import *  # noqa: F403

P = "C08"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **{**TREE, **k})


def shape(r, lo, hi):
    h = ht(r)
    return (wf(r), lo <= h and h <= hi)


def joined(f):
    """the arguments of a join of two trees (precondition)"""
    def g(j):
        t1, k, v, t2 = j
        if not (all_lt(flat(t1), k) and all_gt(flat(t2), k)):
            return "n/a"
        return f(t1, k, v, t2)
    return g


OK = (True, True)


@joined
def mk_code(t1, k, v, t2):
    a, b = ht(t1), ht(t2)
    if not (-2 <= a - b and a - b <= 2):
        return "n/a"
    return shape(maptree.mk(t1, k, v, t2), max(a, b) + 1, max(a, b) + 1)


@joined
def mk_spec(t1, k, v, t2):
    a, b = ht(t1), ht(t2)
    if not (-2 <= a - b and a - b <= 2):
        return "n/a"
    return OK


c("mk", dict(j=JoinT(2)), mk_code, mk_spec)


@joined
def rb_code(t1, k, v, t2):
    a, b = ht(t1), ht(t2)
    if not (-3 <= a - b and a - b <= 3):
        return "n/a"
    m = max(a, b)
    if -2 <= a - b and a - b <= 2:
        return shape(maptree.rebalance(t1, k, v, t2), m + 1, m + 1)
    return shape(maptree.rebalance(t1, k, v, t2), m, m + 1)


@joined
def rb_spec(t1, k, v, t2):
    a, b = ht(t1), ht(t2)
    if not (-3 <= a - b and a - b <= 3):
        return "n/a"
    return OK


c("rebalance", dict(j=JoinT(3)), rb_code, rb_spec)
RB = by_name(rebalance=g_rebalance_h)

c("add", dict(k=Key, v=Any, t=Tree), lambda k, v, t: shape(maptree.add(k, v, t), ht(t), ht(t) + 1), lambda k, v, t: OK, summaries=RB)
c("remove", dict(k=Key, t=Tree), lambda k, t: shape(maptree.remove(k, t), ht(t) - 1, ht(t)), lambda k, t: OK,
  summaries={**RB, **by_name(splice_out_successor=g_splice)})


def u_obs(r):
    return (r[0], r[1], wf(r[2]))


def sp_code(t):
    if ht(t) == 0:
        return "n/a"
    k, v, r = maptree.splice_out_successor(t)
    return shape(r, ht(t) - 1, ht(t))


def sp_spec(t):
    return OK if ht(t) > 0 else "n/a"


c("splice_out_successor", dict(t=Tree), sp_code, sp_spec, summaries=RB)


def g_change_h(k, u, m):
    require("change: well-formed tree", wf(m))
    if u(Nothing).tag == "some":
        return new_tree(insert(flat(m), k, None), ht(m), ht(m) + 1)
    return new_tree(delete(flat(m), k), ht(m) - 1, ht(m))


FO = FunT(OptT())
# the change function is called with what is there (C06); here its result is arbitrary
c("change", dict(k=Key, u=FO, t=Tree), lambda k, u, t: shape(maptree.change(k, lambda o: u(), t), ht(t) - 1, ht(t) + 1),
  lambda k, u, t: (u(), OK)[1], summaries={**RB, **by_name(splice_out_successor=g_splice)}, rec={**REC, "change": g_change_h})
AD = by_name(add=g_add_o)
FB = FunT(Bool)


def f_shape(f, t):
    return wf(maptree.filter_aux(f, t, maptree.empty))


def s_calls(f, q):
    for k, v in q:
        f(k, v)
    return True


def s_rcalls(f, q):
    for k, v in reversed(q):
        f(k, v)
    return (True, True)


def m_code(f, t):
    r = maptree.map(f, t)
    return (shape(r, ht(t), ht(t)), span(r))


c("map", dict(f=F2, t=Tree), m_code, lambda f, t: ((s_calls(f, flat(t)), True), span(t)))
c("filter", dict(f=FB, t=Tree), lambda f, t: wf(maptree.filter(f, t)), lambda f, t: s_calls(f, flat(t)), summaries={**AD, **by_name(filter_aux=g_filter_aux)})
c("filter_aux", dict(f=FB, t=Tree, a=Tree), lambda f, t, a: wf(maptree.filter_aux(f, t, a)), lambda f, t, a: s_calls(f, flat(t)), summaries=AD)
c("partition", dict(f=FB, t=Tree), lambda f, t: tuple([wf(x) for x in maptree.partition(f, t)]), lambda f, t: s_rcalls(f, flat(t)),
  summaries={**AD, **by_name(partition_aux=g_partition_aux)})
c("partition_aux", dict(f=FB, t=Tree, a=Tree, b=Tree), lambda f, t, a, b: tuple([wf(x) for x in maptree.partition_aux(f, t, (a, b))]), lambda f, t, a, b: s_rcalls(f, flat(t)), summaries=AD)
c("of_seq", dict(xs=PAIRS), lambda xs: wf(maptree.of_seq(xs)), lambda xs: True, summaries=AD)
c("of_list", dict(xs=PAIRS), lambda xs: wf(maptree.of_list(Block(xs))), lambda xs: True, summaries=AD)

"""Ghost vocabulary of search trees (pure Python; the concrete runner executes it, the verifier interprets it in
pv/trees.py over uninterpreted functions with unfolding facts)."""
from __future__ import annotations

from .lang import BIG, AnyT, KeyT, TupT, Ty, U


def classes():
    from expression.collections import maptree
    return maptree.MapTreeLeaf, maptree.MapTreeNode


def flat(t):
    """the entries of a tree, in order"""
    leaf, node = classes()
    if t.tag != "some":
        return ()
    n = t.some
    if isinstance(n, node):
        return flat(n.left) + ((n.key, n.value),) + flat(n.right)
    return ((n.key, n.value),)


def ht(t):
    """the height of a tree"""
    leaf, node = classes()
    if t.tag != "some":
        return 0
    n = t.some
    if isinstance(n, node):
        return 1 + max(ht(n.left), ht(n.right))
    return 1


def wf(t):
    """strictly ordered keys, recorded heights right, heights of siblings differ by at most 2"""
    leaf, node = classes()
    if t.tag != "some":
        return True
    n = t.some
    if not isinstance(n, node):
        return isinstance(n, leaf)
    a, b = ht(n.left), ht(n.right)
    return (wf(n.left) and wf(n.right) and n.height == 1 + max(a, b) and abs(a - b) <= 2
            and all_lt(flat(n.left), n.key) and all_gt(flat(n.right), n.key))


def below(q, k):
    return tuple(x for x in q if x[0] < k)


def at(q, k):
    return tuple(x for x in q if x[0] == k)


def above(q, k):
    return tuple(x for x in q if k < x[0])


def ins(q, k, v):
    """the entries with one added or replaced (opaque to the verifier: equal for equal arguments)"""
    return below(q, k) + ((k, v),) + above(q, k)


def lookup(q, k):
    """the value at a key"""
    from expression import Nothing, Some
    for x in q:
        if x[0] == k:
            return Some(x[1])
    return Nothing


def all_lt(q, k):
    return all(x[0] < k for x in q)


def all_gt(q, k):
    return all(k < x[0] for x in q)


def sflat(q):
    """the entries of a sequence of trees"""
    return tuple(e for t in q for e in flat(t))


def headleaf(q):
    """the first tree of the sequence, if any, is a leaf"""
    leaf, node = classes()
    return not q or q[0].tag == "some" and not isinstance(q[0].some, node)


def new_tree(q, lo, hi):
    """(verifier only) some well-formed tree with these entries and a height between lo and hi"""
    raise NotImplementedError


def split_first(t, lo, hi):
    """(verifier only) the first key and value of a non-empty tree and some well-formed tree of the other entries, with a
    height between lo and hi"""
    raise NotImplementedError


def span(t):
    """first and last key"""
    q = flat(t)
    return (q[0][0], q[-1][0]) if q else ()


def like_tree(q, t):
    """(verifier only) some well-formed tree of the height and the keys of t, with the entries q"""
    raise NotImplementedError


def new_trees(q):
    """(verifier only) some sequence of trees, headed by a leaf, with these entries"""
    raise NotImplementedError


# ---------------------------------------------------------------- inputs
def shape(r, items, h):
    """a random well-formed tree with the items, of height h"""
    from expression import Nothing, Some
    leaf, node = classes()
    n = len(items)
    if h == 0:
        return Nothing
    if h == 1:
        return Some(leaf(*items[0]))
    opts = [(a, b) for a, b in ((h - 1, h - 1), (h - 1, h - 2), (h - 1, h - 3), (h - 2, h - 1), (h - 3, h - 1)) if min(a, b) >= 0]
    r.shuffle(opts)
    for a, b in opts:
        cut = [i for i in range(n) if fits(i, a) and fits(n - 1 - i, b)]
        if cut:
            i = r.choice(cut)
            return Some(node(items[i][0], items[i][1], shape(r, items[:i], a), shape(r, items[i + 1:], b), h))
    raise AssertionError((n, h))


MIN = [0, 1, 2]


def fits(n, h):
    while len(MIN) <= h:
        MIN.append(1 + MIN[-1] + MIN[-3])
    return MIN[h] <= n <= 2 ** h - 1


def gen_tree(r, keys):
    items = [(k, AnyT().gen(r, None)) for k in keys]
    hs = [h for h in range(0, 12) if fits(len(items), h)]
    return shape(r, items, r.choice(hs))


class TreeT(Ty):
    """any well-formed tree over totally ordered keys"""

    def gen(self, r, env):
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 9, 12, 16, 25] if not BIG[0] else [18, 30, 34, 60, 80])
        old = getattr(env, "last_tree", None)
        if old is not None and r.random() < 0.4:  # nearly the same entries as in the tree before
            items = list(old)
            if items and r.random() < 0.6:
                k = r.randrange(len(items))
                items[k:k + 1] = [(items[k][0], AnyT().gen(r, None))] * (r.random() < 0.6)
            return shape(r, items, r.choice([h for h in range(0, 12) if fits(len(items), h)]))
        items = [(U(k), AnyT().gen(r, None)) for k in sorted(r.sample(range(2 * n + 2), n))]
        if env is not None:
            env.last_tree = items
        return shape(r, items, r.choice([h for h in range(0, 12) if fits(len(items), h)]))


Tree = TreeT()


class JoinT(TupT):
    """(t1, k, v, t2) with the keys of t1 below k and those of t2 above, heights differing by at most d"""

    def __init__(self, d=3):
        super().__init__(Tree, KeyT(), AnyT(), Tree)
        self.d = d

    def gen(self, r, env):
        while True:
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 25])
            ks = [U(k) for k in sorted(r.sample(range(2 * n + 2), n))]
            i = r.randrange(n)
            a, b = gen_tree(r, ks[:i]), gen_tree(r, ks[i + 1:])
            if abs(ht(a) - ht(b)) <= self.d:
                return (a, ks[i], AnyT().gen(r, None), b)

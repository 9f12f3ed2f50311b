"""The verifier's reading of the search-tree vocabulary of pv/tree.py.

An opaque tree is a constant t of sort V, well-formed by definition (precondition of the inputs, postcondition of the
summarised calls, definition of the children of a well-formed node).  flat(t): Seq, ht(t): Int are uninterpreted; looking
at the tree unfolds their definitions once.  lo/hi of a sequence are the ranks of its first and last key (meaningful for
non-empty strictly sorted sequences, srt).  below/at/above filter a sequence by a key: pushed through concatenation and
units, uninterpreted with their defining consequences on atoms."""
from __future__ import annotations

import z3

from . import lang, tree
from . import terms as T
from . import vm as M
from .natives import nat
from .terms import V
from .vm import Obj, SSeq, Sym, Unsupported, embed, mkbool, mkint, seqterm, uf

Q, I, B = T.Q, T.I, T.B
flat_uf = uf("flat", T.V, Q)
ht_uf = uf("ht", T.V, I)
leaf_uf = uf("leafp", T.V, B)
_KEEP = {}


def _const(name, sort):
    """one constant per sequence atom (not a function of the sequence: keeps the sequence theory out of path decisions;
    equal atoms may be given different constants, which only loses information)"""
    def f(x):
        x = z3.simplify(x)
        _KEEP[x.get_id()] = x
        return z3.Const(f"{name}!{x.get_id()}", sort)
    return f


lo_uf, hi_uf, ne_uf, _srt, val_uf = _const("lo", I), _const("hi", I), _const("ne", B), _const("srt", B), _const("val", T.V)


def srt_uf(x):
    """strictly sorted by key: the entries of a tree and what is filtered from sorted entries"""
    n = x.decl().name()
    if n == "flat":
        return z3.BoolVal(True)
    if n in FILT and x.num_args() == 2:
        return srt_uf(x.arg(0))
    return _srt(x)


FILT = {n: uf(n, Q, I, Q) for n in ("below", "at", "above")}
sflat_uf = uf("sflat", Q, Q)
PAIR = lang.TupT(lang.Key, lang.Any)
ln = z3.Length


def is_tree(v):
    return isinstance(v, Sym) and isinstance(v.ty, tree.TreeT)


# ------------------------------------------------------------------ opaque trees
def lemma(st, t):
    """a fact used for obligations only (equations between sequences slow down the path decisions)"""
    st.lem.append(t)


def nonempty(x):
    return ne_uf(x)


def atom_facts(st, x):
    """x: an atomic sequence"""
    k = ("satom", x.get_id())
    if k in st.extra:
        return
    st.extra[k] = x
    st.fact(z3.Implies(z3.And(srt_uf(x), ne_uf(x)), lo_uf(x) <= hi_uf(x)))
    (st.fact if x.decl().name() == "sflat" else lambda f: lemma(st, f))(ne_uf(x) == (ln(x) > 0))


def base_facts(t):
    f = flat_uf(t)
    return [ht_uf(t) >= 0, (ht_uf(t) > 0) == ne_uf(f), z3.Implies(leaf_uf(t), ht_uf(t) == 1)]


def tree_facts(st, t):
    k = ("tree", t.get_id())
    if k in st.extra:
        return
    st.extra[k] = t
    for f in base_facts(t):
        st.fact(f)
    atom_facts(st, flat_uf(t))


def candidates(ex, entry, by, inst, gs, e):
    """candidate loop invariants about trees"""
    out = []
    ty = {p: inst.G[p][2] for p in gs}
    trees = [p for p in gs if inst.G[p][0] == "V" and isinstance(ty[p], tree.TreeT)]
    stacks = [p for p in gs if inst.G[p][0] == "Q" and isinstance(ty[p], tree.TreeT)]
    seqs = [p for p in gs if inst.G[p][0] == "Q" and p not in stacks]
    keys = []
    for x in entry.extra.values():
        if isinstance(x, tuple) and len(x) == 2 and z3.is_expr(x[1]) and x[1].sort() == I and not any(k.eq(x[1]) for k in keys):
            keys.append(x[1])
    if trees:
        keys += [k for k in ranks(entry) if not any(k.eq(x) for x in keys)]
    for p in trees:
        f = flat_uf(gs[p])
        out.append((f"{p} not empty", ht_uf(gs[p]) > 0))
        for q in seqs:
            out.append((f"flat({p})={q}", f == gs[q]))
        for i, k in enumerate(keys[:4]):
            out.append((f"at({p},k{i})=init", FILT["at"](f, k) == FILT["at"](flat_uf(e[p]), k)))
            out.append((f"ne(at({p},k{i}))=init", ne_uf(FILT["at"](f, k)) == ne_uf(FILT["at"](flat_uf(e[p]), k))))
    out += prefix_candidates(entry, inst, gs)
    for p in stacks:
        out.append((f"headleaf({p})", hl_uf(gs[p])))
        out.append((f"empty({p})", (ln(gs[p]) == 0) == (ln(sflat_uf(gs[p])) == 0)))
        out.append((f"sflat({p})=init", sflat_uf(gs[p]) == sflat_uf(e[p])))
        for q in seqs:
            out.append((f"{q}+sflat({p})=init", z3.Concat(gs[q], sflat_uf(gs[p])) == z3.Concat(e[q], sflat_uf(e[p]))))
        for q in [x for x in gs if inst.G[x][0] == "I"]:
            for x in entry.extra.values():
                if z3.is_expr(x) and x.sort() == Q:
                    out.append((f"sflat({p})={x}[{q}:]", sflat_uf(gs[p]) == z3.SubSeq(x, gs[q], ln(x) - gs[q])))
    return out


def ranks(st):
    """the ranks of keys that were compared, oldest first"""
    out, seen, todo = [], set(), list(reversed(st.pc))
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(T.ord_uf) and z3.is_const(x.arg(0)):
                out.append(x)
            todo.extend(x.children())
    return out


def qparts(st, m, t):
    """the parts of a term over the entries of trees, pushing filters inwards"""
    out = []
    for k, p in parts(st, t):
        n = p.decl().name() if k == "a" else ""
        if n == "sflat":
            for c, q in parts(st, p.arg(0)):
                d = st.names.get((q.get_id(), z3.IntVal(0).get_id())) if c == "a" else None
                if c == "u":
                    out += flat_parts(st, unembed(st, m, q))
                elif d is not None and len(d) == 3 and known(st, ln(q) > 0):
                    tree_facts(st, d[0])
                    out += [("a", flat_uf(d[0]))] + qparts(st, m, sflat_uf(z3.simplify(z3.SubSeq(q, 1, ln(q) - 1))))
                else:
                    out += sflat_atom(st, q)
        elif n in FILT and p.num_args() == 2:
            out += push(st, n, qparts(st, m, p.arg(0)), p.arg(1))
        elif n == "flat":
            tree_facts(st, p.arg(0))
            out.append((k, p))
        else:
            out.append((k, p))
    return out


def assume(st, m, t):
    """an equation of this kind is assumed of a fresh value: its entries are those of the right side"""
    x = t.arg(0)
    if ("sdef", x.get_id()) not in st.extra:
        if x.decl().name() in FILT:
            filt(st, x.decl().name(), x.arg(0), x.arg(1))
        try:
            ps = norm(st, qparts(st, m, t.arg(1)))
        except (Unsupported, M.Fork):
            return
        atom_facts(st, x)
        define(st, x, ps)
        if len(ps) == 1 and ps[0][0] == "a":
            st.extra["sdef", x.get_id()] = (x, tuple(ps))


def holds(st, m, t):
    """an equation between entries of trees holds by normalisation"""
    if not z3.is_eq(t) or t.arg(0).sort() != Q:
        return False
    try:
        x, y = (norm(st, qparts(st, m, s)) for s in t.children())
    except (Unsupported, M.Fork):
        return False
    return len(x) == len(y) and all(k == l and (p.eq(q) or known(st, p == q)) for (k, p), (l, q) in zip(x, y))


def prefix_candidates(entry, inst, gs):
    """equal prefixes of the entries of two trees"""
    out = []
    fl = [x for k, x in entry.extra.items() if k[0] == "satom" and x.decl().name() == "flat"][:4]
    for p in gs:
        if inst.G[p][0] == "I":
            for i, x in enumerate(fl):
                for j, y in enumerate(fl[:i]):
                    out.append((f"flat{i}[:{p}]=flat{j}[:{p}]", z3.SubSeq(x, 0, gs[p]) == z3.SubSeq(y, 0, gs[p])))
    return out


def fresh_tree(st, hint="t"):
    t = st.fresh("V", hint)
    return t


def rank(st, kt):
    """rank of a key term"""
    kt = z3.simplify(kt)
    o = T.ord_uf(kt)
    st.fact(T.unord_uf(o) == kt)
    st.fact(z3.Implies(V.is_vint(kt), o == V.vi(kt)))
    return o


def pair_key(st, p):
    return rank(st, V.tq(p)[0])


def parts(st, q):
    """the concatenation factors of a sequence term: ('u', element) | ('a', atom)"""
    q = z3.simplify(q)
    d = st.names.get(("def", q.get_id()))
    if d is not None:
        return parts(st, d[0])
    k = q.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return []
    if k == z3.Z3_OP_SEQ_UNIT:
        return [("u", q.arg(0))]
    if k == z3.Z3_OP_SEQ_CONCAT:
        return [p for i in range(q.num_args()) for p in parts(st, q.arg(i))]
    if k == z3.Z3_OP_SEQ_EXTRACT:
        r = drop(st, q)
        if r is not None:
            return r
    return [("a", q)]


def drop(st, q):
    """q = x[n:n+len(x)-n] with a literal n and x starting with at least n units"""
    x, a, l = q.arg(0), q.arg(1), q.arg(2)
    if not z3.is_int_value(a):
        return None
    ps, n = parts(st, x), a.as_long()
    if not all(p[0] == "u" for p in ps[:n]) or len(ps) < n:
        return None
    if not z3.simplify(l + n - ln(x)).eq(z3.IntVal(0)) and st.ex.solver.proves(st.pc, l + n == ln(x)) is not True:
        return None
    return ps[n:]


def locate(st, q, i):
    """the element at a position in bounds: an element term, or (sequence, position) within a part of a concatenation"""
    d = st.names.get(("def", q.get_id()))
    if d is not None:
        q = z3.simplify(d[0])
    d = st.extra.get(("sdef", q.get_id()))
    ps = list(d[1]) if d is not None else parts(st, q)
    if len(ps) > 1 or ps and ps[0][0] == "u":
        off = z3.IntVal(0)
        for j, (k, p) in enumerate(ps):
            n = 1 if k == "u" else ln(p)
            at = i == off if k == "u" else i < off + n
            if j == len(ps) - 1 or known(st, at):
                if k == "u":
                    return p
                return locate(st, z3.simplify(p), z3.simplify(i - off))
            if not known(st, z3.Not(at)):
                return (q, i)
            off = off + n
    for k, r in st.names.items():
        if len(r) == 3 and k[0] != "comp" and r[1].eq(q) and known(st, r[2] == i):
            return (q, r[2])
    return (q, i)


def join(ps):
    ts = [z3.Unit(p) if k == "u" else p for k, p in ps]
    return T.EMPTY if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def lo_of(st, ps):
    r = z3.IntVal(0)
    for k, p in reversed(ps):
        if k == "u":
            r = pair_key(st, p)
        else:
            atom_facts(st, p)
            r = z3.If(ne_uf(p), lo_uf(p), r)
    return r


def hi_of(st, ps):
    return lo_like(st, ps)


def lo_like(st, ps):
    r = z3.IntVal(0)
    for k, p in ps:
        if k == "u":
            r = pair_key(st, p)
        else:
            atom_facts(st, p)
            r = z3.If(ne_uf(p), hi_uf(p), r)
    return r


def define(st, x, ps):
    """the sequence atom x is the concatenation of the parts"""
    lemma(st, x == join(ps))
    st.fact(ln(x) == z3.Sum([z3.IntVal(1) if k == "u" else ln(p) for k, p in ps]))
    if not any(k == 'u' for k, _ in ps):
        for _, p in ps:
            atom_facts(st, p)
    st.fact(ne_uf(x) == (True if any(k == 'u' for k, _ in ps) else z3.Or(*[ne_uf(p) for _, p in ps])))
    if len(ps) == 1 and ps[0][0] == "a" and x.decl().name() != "sflat":
        return
    st.extra["sdef", x.get_id()] = (x, tuple(ps))
    st.fact(z3.Implies(ne_uf(x), z3.And(lo_uf(x) == lo_of(st, ps), hi_uf(x) == hi_of(st, ps))))
    for (y, k) in st.extra.get("spairs", ()):
        if y.eq(x):
            unfold(st, x, ps, k)


def unfold(st, x, ps, k):
    for n, f in FILT.items():
        qs = push(st, n, ps, k)
        lemma(st, f(x, k) == join(qs))
        if n == "at" and all(c == "u" or ("satom", p.get_id()) in st.extra or p.decl().kind() == z3.Z3_OP_ITE for c, p in qs):
            st.fact(ne_uf(f(x, k)) == z3.Or(*[z3.BoolVal(True) if c == "u" else p.arg(0) if p.decl().kind() == z3.Z3_OP_ITE else ne_uf(p) for c, p in qs]))


def push(st, name, ps, k):
    out = []
    for kind, p in ps:
        if kind == "u":
            o = pair_key(st, p)
            c = {"below": o < k, "at": o == k, "above": o > k}[name]
            try:
                out += [("u", p)] if st.decide(c) else []
            except M.Fork:
                out.append(("a", z3.If(c, z3.Unit(p), T.EMPTY)))
        else:
            out.append(("a", filt(st, name, p, k)))
    return out


def filt(st, name, x, k):
    """below/at/above of an atom"""
    key = ("sfilt", x.get_id(), k.get_id())
    if key not in st.extra:
        st.extra[key] = (x, k)
        b, e, a = (FILT[n](x, k) for n in ("below", "at", "above"))
        s, ne = srt_uf(x), ne_uf(x)
        st.extra["spairs"] = st.extra.get("spairs", ()) + ((x, k),)
        for y in (x, b, e, a):
            atom_facts(st, y)
        st.fact(z3.Implies(z3.Not(ne), z3.And(z3.Not(ne_uf(b)), z3.Not(ne_uf(e)), z3.Not(ne_uf(a)))))
        lemma(st, z3.Implies(s, x == z3.Concat(b, e, a)))
        st.fact(z3.Implies(z3.And(s, ne, hi_uf(x) < k), z3.And(z3.Not(ne_uf(e)), z3.Not(ne_uf(a)))))
        lemma(st, z3.Implies(z3.And(s, ne, hi_uf(x) < k), b == x))
        st.fact(z3.Implies(z3.And(s, ne, lo_uf(x) > k), z3.And(z3.Not(ne_uf(e)), z3.Not(ne_uf(b)))))
        lemma(st, z3.Implies(z3.And(s, ne, lo_uf(x) > k), a == x))
        lemma(st, z3.Implies(s, ln(e) <= 1))
        st.fact(z3.Implies(z3.And(s, ne_uf(b)), z3.And(hi_uf(b) < k, hi_uf(b) <= hi_uf(x), lo_uf(b) == lo_uf(x))))
        st.fact(z3.Implies(z3.And(s, ne_uf(a)), z3.And(lo_uf(a) > k, lo_uf(a) >= lo_uf(x), hi_uf(a) == hi_uf(x))))
        kt = T.unord_uf(k)
        lemma(st, z3.Implies(z3.And(s, ln(e) == 1), e == z3.Unit(V.vtup(T.seq_of([kt, val_uf(e)])))))
        d = st.extra.get(("sdef", x.get_id()))
        if d is not None:
            unfold(st, x, d[1], k)
    return FILT[name](x, k)


# ------------------------------------------------------------------ equality of sequences by normalisation
def known(st, c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    k = ("known", c.get_id(), len(st.pc))
    if k not in st.extra:
        st.extra[k] = (c, st.ex.solver.light.unsat(st.pc, z3.Not(c)))
    return st.extra[k][1]


def norm(st, ps):
    """expands definitions and filters, drops what is known to be empty; every step is justified by a fact or lemma of st"""
    out = []
    for k, p in ps:
        if k == "u":
            out.append((k, p))
            continue
        p = z3.simplify(p)
        if p.decl().kind() == z3.Z3_OP_ITE:
            if known(st, p.arg(0)):
                out += norm(st, parts(st, p.arg(1)))
                continue
            if known(st, z3.Not(p.arg(0))):
                out += norm(st, parts(st, p.arg(2)))
                continue
        d = st.extra.get(("sdef", p.get_id()))
        if d is not None:
            out += norm(st, d[1])
            continue
        n = p.decl().name()
        if n == "sflat" and p.num_args() == 1:
            r = sflat_atom(st, p.arg(0))
            if not (len(r) == 1 and r[0][1].eq(p)) or ("sdef", p.get_id()) in st.extra:
                out += norm(st, r)
                continue
        if ("satom", p.get_id()) in st.extra and known(st, z3.Not(ne_uf(p))):
            continue
        if n in FILT and p.num_args() == 2:
            x, o = p.arg(0), p.arg(1)
            d = st.extra.get(("sdef", x.get_id()))
            if d is not None:
                out += norm(st, push(st, n, d[1], o))
                continue
            if known(st, srt_uf(x)):
                if n == "below" and known(st, hi_uf(x) < o) or n == "above" and known(st, lo_uf(x) > o):
                    out += norm(st, [("a", x)])
                    continue
        out.append(("a", p))
    # x == below(x, k) ++ above(x, k) when nothing is at k
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if a[0] == b[0] == "a" and a[1].decl().name() == "below" and b[1].decl().name() == "above":
            x, o = a[1].arg(0), a[1].arg(1)
            if b[1].arg(0).eq(x) and b[1].arg(1).eq(o) and known(st, z3.And(srt_uf(x), z3.Not(ne_uf(FILT["at"](x, o))))):
                out[i:i + 2] = [("a", x)]
                continue
        i += 1
    return out


def same_seq(st, a, b):
    """True when the two sequence terms have the same normal form"""
    x, y = norm(st, parts(st, a)), norm(st, parts(st, b))
    if len(x) != len(y):
        return False
    for (k, p), (l, q) in zip(x, y):
        if k != l:
            return False
        if not p.eq(q) and not known(st, p == q):
            return False
    return True


# ------------------------------------------------------------------ decoding and structural trees
def decode(st, m, t):
    """the object an opaque tree is (forks on its case)"""
    from expression import Nothing
    tree_facts(st, t)
    leaf, node = tree.classes()
    if st.decide(ht_uf(t) == 0):
        return m.lift(Nothing)
    k = ("decode", t.get_id())
    isleaf = st.decide(leaf_uf(t))
    if k not in st.extra:
        fs = (st.fresh("V", "k"), st.fresh("V", "v"), st.fresh("V", "l"), st.fresh("V", "r"))
        st.extra[k] = fs
        f = flat_uf(t)
        u = V.vtup(T.seq_of(fs[:2]))
        if isleaf:
            define(st, f, [("u", u)])
        else:
            l, r = fs[2:]
            tree_facts(st, l)
            tree_facts(st, r)
            fl, fr, o = flat_uf(l), flat_uf(r), rank(st, fs[0])
            hl, hr = ht_uf(l), ht_uf(r)
            define(st, f, [("a", fl), ("u", u), ("a", fr)])
            st.fact(ht_uf(t) == z3.If(hl < hr, hr, hl) + 1)
            st.fact(z3.And(hl - hr <= 2, hr - hl <= 2))
            st.fact(z3.Implies(ne_uf(fl), hi_uf(fl) < o))
            st.fact(z3.Implies(ne_uf(fr), lo_uf(fr) > o))
    fs = st.extra[k]
    kv = {"key": Sym("V", fs[0]), "value": Sym("V", fs[1])}
    if isleaf:
        o = Obj(leaf, kv)
    else:
        h = ht_uf(t)
        o = Obj(node, {**kv, "left": Sym("V", fs[2], tree.Tree), "right": Sym("V", fs[3], tree.Tree), "height": Sym("I", h)})
    from expression import Some
    return st.ex.fill(m, Some, o)


def unembed(st, m, t):
    """the tree denoted by an element term"""
    s = z3.simplify(t)
    if s.decl().name() == "vobj":
        v = rebuild(st, m, s)
        if v is not None:
            return v
    tree_facts(st, s)
    return Sym("V", s, tree.Tree)


def rebuild(st, m, s):
    from expression import Nothing, Some
    us = st._units(s.arg(1))
    if us is None or len(us) != 2 or not z3.is_string_value(V.vs(us[0]) if us[0].decl().name() != "vstr" else us[0].arg(0)):
        return None
    if us[0].arg(0).as_string() != "some":
        return m.lift(Nothing)
    n = us[1]
    if n.decl().name() != "vobj":
        return None
    key = T.CLS.rev[n.arg(0).as_long()]
    fs = st._units(n.arg(1))
    if not isinstance(key, tuple) or fs is None:
        return None
    cls, names = key
    attrs = {}
    for a, x in zip(names, fs):
        attrs[a] = (unembed(st, m, x) if a in ("left", "right") else mkint(V.vi(x)) if a == "height" else st._decode_untyped(m, x))
    return st.ex.fill(m, Some, Obj(cls, attrs))


def struct(v):
    """(case, fields) of a structural tree"""
    leaf, node = tree.classes()
    if not isinstance(v, Obj) or v.attrs.get("tag") not in ("some", "none"):
        raise Unsupported(f"not a tree: {v!r}")
    if v.attrs["tag"] == "none":
        return "none", None
    n = v.attrs["some"]
    if not isinstance(n, Obj) or n.cls not in (leaf, node):
        raise Unsupported(f"not a tree node: {n!r}")
    return ("node" if n.cls is node else "leaf"), n.attrs


def flat_parts(st, v):
    if is_tree(v):
        tree_facts(st, v.t)
        return [("a", flat_uf(v.t))]
    c, a = struct(v)
    if c == "none":
        return []
    u = [("u", V.vtup(T.seq_of([embed(a["key"]), embed(a["value"])])))]
    return u if c == "leaf" else flat_parts(st, a["left"]) + u + flat_parts(st, a["right"])


def height(st, v):
    if is_tree(v):
        tree_facts(st, v.t)
        return ht_uf(v.t)
    c, a = struct(v)
    if c == "none":
        return z3.IntVal(0)
    if c == "leaf":
        return z3.IntVal(1)
    x, y = height(st, a["left"]), height(st, a["right"])
    return z3.If(x < y, y, x) + 1


def bound(st, ps, k, lt):
    out = []
    for kind, p in ps:
        if kind == "u":
            o = pair_key(st, p)
            out.append(o < k if lt else o > k)
        else:
            atom_facts(st, p)
            out.append(z3.Or(z3.Not(ne_uf(p)), hi_uf(p) < k if lt else lo_uf(p) > k))
    return z3.And(*out) if out else z3.BoolVal(True)


def wellformed(st, v):
    if is_tree(v):
        tree_facts(st, v.t)
        return z3.BoolVal(True)
    c, a = struct(v)
    if c != "node":
        return z3.BoolVal(True)
    l, r = a["left"], a["right"]
    hl, hr = height(st, l), height(st, r)
    o = rank(st, embed(a["key"]))
    return z3.And(wellformed(st, l), wellformed(st, r), M.iterm(a["height"]) == z3.If(hl < hr, hr, hl) + 1, hl - hr <= 2, hr - hl <= 2,
                  bound(st, flat_parts(st, l), o, True), bound(st, flat_parts(st, r), o, False))


def seqval(ps, ty=PAIR):
    return SSeq(z3.simplify(join(ps)), "tuple", ty)


@nat(tree.flat)
def _flat(m, a, kw):
    return seqval(flat_parts(m.st, a[0]))


@nat(tree.ht)
def _ht(m, a, kw):
    return mkint(height(m.st, a[0]))


@nat(tree.wf)
def _wf(m, a, kw):
    return mkbool(wellformed(m.st, a[0]))


def _filter(name):
    def h(m, a, kw):
        st = m.st
        k = rank(st, embed(a[1]))
        return seqval(push(st, name, parts(st, seqterm(a[0])), k))
    return h


for _n in FILT:
    nat(getattr(tree, _n))(_filter(_n))


ins_uf = uf("ins", Q, T.V, T.V, Q)


@nat(tree.ins)
def _ins(m, a, kw):
    st = m.st
    x = ins_uf(seqterm(a[0]), embed(a[1]), embed(a[2]))
    atom_facts(st, x)
    st.fact(ne_uf(x))
    return seqval([("a", x)])


@nat(tree.all_lt)
def _alt(m, a, kw):
    return mkbool(bound(m.st, parts(m.st, seqterm(a[0])), rank(m.st, embed(a[1])), True))


@nat(tree.all_gt)
def _agt(m, a, kw):
    return mkbool(bound(m.st, parts(m.st, seqterm(a[0])), rank(m.st, embed(a[1])), False))


@nat(tree.lookup)
def _lookup(m, a, kw):
    from expression import Nothing, Some
    st = m.st
    k = rank(st, embed(a[1]))
    q = parts(st, seqterm(a[0]))
    if not all(x == "u" or z3.is_true(srt_uf(p)) for x, p in q):
        raise Unsupported("lookup in a sequence not known to be sorted")
    if len(q) == 1 and q[0][0] == "a":
        # keys of sorted entries are distinct: the key of the i-th entry leads to that entry
        key = z3.simplify(embed(a[1]))
        for n, r in st.names.items():
            if n[0] == "comp" and len(r) == 3 and r[0].eq(key):
                for n2, e in st.names.items():
                    if n2[0] != "comp" and len(e) == 3 and e[0].eq(r[2]) and e[1].eq(q[0][1]):
                        return st.ex.fill(m, Some, st._decode_untyped(m, r[1]))
    for c, p in norm(st, push(st, "at", q, k)):
        if c == "u":
            return st.ex.fill(m, Some, st._decode_untyped(m, z3.simplify(V.tq(p)[1])))
        if p.decl().kind() == z3.Z3_OP_ITE:
            if st.decide(p.arg(0)):
                return st.ex.fill(m, Some, st._decode_untyped(m, z3.simplify(V.tq(p.arg(1).arg(0))[1])))
        elif st.decide(ne_uf(p)):
            return st.ex.fill(m, Some, Sym("V", val_uf(p)))
    return m.lift(Nothing)


@nat(tree.new_tree)
def _new(m, a, kw):
    st = m.st
    t = st.fresh("V", "t")
    tree_facts(st, t)
    h = ht_uf(t)
    st.fact(z3.And(h >= M.iterm(a[1]), h <= M.iterm(a[2])))
    define(st, flat_uf(t), parts(st, seqterm(a[0])))
    return Sym("V", t, tree.Tree)


@nat(tree.span)
def _span(m, a, kw):
    st = m.st
    ps = flat_parts(st, a[0])
    ne = z3.Or(*[z3.BoolVal(True) if k == "u" else ne_uf(p) for k, p in ps]) if ps else z3.BoolVal(False)
    return (mkint(z3.If(ne, lo_of(st, ps), 0)), mkint(z3.If(ne, hi_of(st, ps), 0)), mkbool(ne))


@nat(tree.like_tree)
def _like(m, a, kw):
    st = m.st
    v = a[1]
    if not is_tree(v):
        raise Unsupported("shape of a structural tree")
    t = st.fresh("V", "t")
    tree_facts(st, t)
    tree_facts(st, v.t)
    f, g = flat_uf(t), flat_uf(v.t)
    st.fact(ht_uf(t) == ht_uf(v.t))
    st.fact(z3.And(lo_uf(f) == lo_uf(g), hi_uf(f) == hi_uf(g)))
    lemma(st, f == seqterm(a[0]))
    return Sym("V", t, tree.Tree)


@nat(tree.split_first)
def _split(m, a, kw):
    st, v = m.st, a[0]
    if not is_tree(v):
        raise Unsupported("first entry of a structural tree")
    k, x, t = st.fresh("V", "k"), st.fresh("V", "v"), st.fresh("V", "t")
    tree_facts(st, v.t)
    tree_facts(st, t)
    f, o = flat_uf(t), rank(st, k)
    define(st, flat_uf(v.t), [("u", V.vtup(T.seq_of([k, x]))), ("a", f)])
    st.fact(z3.Implies(ne_uf(f), lo_uf(f) > o))
    h = ht_uf(t)
    st.fact(z3.And(h >= M.iterm(a[1]), h <= M.iterm(a[2])))
    return (Sym("V", k), Sym("V", x), Sym("V", t, tree.Tree))


# ------------------------------------------------------------------ sequences of trees
hl_uf = uf("headleaf", Q, B)


def head_facts(st, q, e):
    st.fact(z3.Implies(hl_uf(q), leaf_uf(e)))


def head_unfold(st, t, e):
    """the first tree of a stack was looked at"""
    if t.decl().kind() == z3.Z3_OP_SEQ_NTH and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
        q = z3.simplify(t.arg(0))
        d = st.names.get(("def", q.get_id()))
        sflat_atom(st, z3.simplify(d[0]) if d is not None else q)


def sflat_atom(st, p):
    """the entries of an atomic sequence of trees, unfolded at its named first element"""
    if known(st, ln(p) == 0):
        return []
    x = sflat_uf(p)
    d = st.names.get((p.get_id(), z3.IntVal(0).get_id()))
    k = ("shead", x.get_id())
    if d is not None and len(d) == 3 and k not in st.extra and known(st, ln(p) > 0):
        st.extra[k] = True
        tree_facts(st, d[0])
        atom_facts(st, x)
        rest = z3.simplify(z3.SubSeq(p, 1, ln(p) - 1))
        ps = [("a", flat_uf(d[0]))] + sflat_atom(st, rest)
        o = st.extra.get(("sdef", x.get_id()))
        if o is None:
            define(st, x, ps)
        else:
            lemma(st, x == join(ps))
            if len(o[1]) == 1 and o[1][0][0] == "a" and ("sdef", o[1][0][1].get_id()) not in st.extra:
                define(st, o[1][0][1], ps)
    elif ("satom", x.get_id()) not in st.extra:
        atom_facts(st, x)
        st.fact(z3.Implies(ln(p) == 0, z3.Not(ne_uf(x))))
    return [("a", x)]


def sflat_parts(st, m, q):
    out = []
    for k, p in parts(st, q):
        if k == "u":
            out += flat_parts(st, unembed(st, m, p))
        else:
            out += sflat_atom(st, p)
    return out


@nat(tree.sflat)
def _sflat(m, a, kw):
    return seqval(sflat_parts(m.st, m, seqterm(a[0])))


@nat(tree.headleaf)
def _headleaf(m, a, kw):
    return mkbool(head_leaf(m.st, m, seqterm(a[0])))


def head_leaf(st, m, q):
    ps = parts(st, q)
    if not ps:
        return z3.BoolVal(True)
    if ps[0][0] == "u":
        v = unembed(st, m, ps[0][1])
        return leaf_uf(v.t) if is_tree(v) else z3.BoolVal(struct(v)[0] == "leaf")
    p = ps[0][1]
    if len(ps) > 1:
        raise Unsupported("head of a concatenation")
    if known(st, ln(p) == 0):
        return z3.BoolVal(True)
    d = st.names.get((p.get_id(), z3.IntVal(0).get_id()))
    return leaf_uf(d[0]) if d is not None and known(st, ln(p) > 0) else hl_uf(p)


@nat(tree.new_trees)
def _news(m, a, kw):
    st = m.st
    c = st.fresh("Q", "stk")
    x = sflat_uf(c)
    atom_facts(st, x)
    ps = parts(st, seqterm(a[0]))
    define(st, x, ps)
    st.fact((ln(c) == 0) == z3.Not(ne_uf(x)))
    st.fact(hl_uf(c))
    return SSeq(c, "tuple", tree.Tree)

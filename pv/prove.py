"""Product proof: the real code against the ghost specification, for all inputs and all environment behaviours."""
from __future__ import annotations

import os
import time

import z3

from . import lang, tree
from . import terms as T
from . import vm as M
from .terms import V
from .vm import (AGWrap, AbsFun, BNat, Cloner, Dead, Fork, Frame, Machine, Obj, PyExc, SSeq, Sym, Unsupported, VAnext, VCell, VDict,
                 VFunc, VGen, VIter, VList, VMethod, VSet, VSlice, VSuper, embed, is_conc, mkbool, mkint, seqterm)

REPO = os.environ.get("PV_REPO", "/repo")


# ------------------------------------------------------------------ solver
class Light:
    """Z3 on an abstraction of the path condition: values and sequences uninterpreted, lengths as integers.  What it proves
    holds (every model of the path condition is a model of the abstraction)."""
    U, S = z3.DeclareSort("absV"), z3.DeclareSort("absQ")

    def __init__(self):
        self.s = z3.SolverFor("QF_UFLIA")
        self.s.set("rlimit", 400000)
        self.stack = []
        self.terms, self.decls, self.keep = {}, {}, []
        self.side = []

    def sort(self, s):
        return self.U if s == T.V else self.S if s == T.Q else s if s.kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) else z3.DeclareSort("abs" + str(s).replace(" ", "_"))

    def length(self, q):
        k = q.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return z3.IntVal(0)
        if k == z3.Z3_OP_SEQ_UNIT:
            return z3.IntVal(1)
        if k == z3.Z3_OP_SEQ_CONCAT:
            return z3.Sum([self.length(x) for x in q.children()])
        r = self.fun("len", [self.S], z3.IntSort())(self.t(q))
        self.side.append(r >= 0)
        if k == z3.Z3_OP_SEQ_EXTRACT:
            n, a, b = self.length(q.arg(0)), self.t(q.arg(1)), self.t(q.arg(2))
            self.side.append(z3.Implies(z3.And(a >= 0, b >= 0, a + b <= n), r == b))
            self.side.append(r <= n)
        return r

    def fun(self, name, dom, ran):
        k = (name, tuple(map(str, dom)), str(ran))
        if k not in self.decls:
            self.decls[k] = z3.Function(f"a.{name}.{len(self.decls)}", *dom, ran)
        return self.decls[k]

    def t(self, x):
        k = x.get_id()
        r = self.terms.get(k)
        if r is None:
            n = len(self.side)
            r = self._t(x)
            self.terms[k] = (r, self.side[n:])
            self.keep.append(x)
            return r
        self.side += r[1]
        return r[0]

    def _t(self, x):
        if not z3.is_app(x):
            raise Unsupported("quantifier")
        d, k, s = x.decl(), x.decl().kind(), x.sort()
        ok = s.kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT)
        if k == z3.Z3_OP_SEQ_LENGTH and x.arg(0).sort() == T.Q:
            return self.length(x.arg(0))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE):
            cs = [self.t(y) for y in x.children()]
            return cs[0] == cs[1] if k == z3.Z3_OP_EQ else z3.Distinct(*cs) if k == z3.Z3_OP_DISTINCT else z3.If(*cs)
        if ok and k != z3.Z3_OP_UNINTERPRETED and all(y.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) for y in x.children()):
            cs = [self.t(y) for y in x.children()]
            return x if not cs else d(*cs) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                z3.And(*cs) if k == z3.Z3_OP_AND else z3.Or(*cs) if k == z3.Z3_OP_OR else z3.Sum(cs) if k == z3.Z3_OP_ADD else z3.Product(cs)
        cs = [self.t(y) for y in x.children()]
        if not cs:
            return z3.Const(f"a.{x}", self.sort(s))
        return self.fun(str(d) if k == z3.Z3_OP_UNINTERPRETED else d.sexpr(), [c.sort() for c in cs], self.sort(s))(*cs)

    def abstract(self, c):
        self.side = []
        r = self.t(c)
        return z3.And(r, *self.side) if self.side else r

    def unsat(self, pc, c):
        st, n = self.stack, 0
        while n < len(st) and n < len(pc) and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for x in pc[n:]:
            self.s.push()
            self.s.add(self.abstract(x))
            st.append(x)
        self.s.push()
        self.s.add(self.abstract(c))
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat


class Solver:
    """Z3 with an assertion stack synchronised to the path condition."""

    def __init__(self, limit=6000000):
        # resource limits, not wall-clock limits: the verdict does not depend on the load of the machine
        self.s = z3.Solver()
        self.limit = limit
        self.s.set("timeout", 60000)
        self.s.set("rlimit", limit)
        self.stack = []
        self.light = Light()
        self.models = None
        self.time = 0.0
        self.queries = 0
        self.unknown = 0
        self.cache = {}

    def sync(self, pc):
        n = 0
        st = self.stack
        while n < len(st) and n < len(pc) and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra, lem=()):
        t0 = time.time()
        self.sync(pc)
        self.s.push()
        for l in lem:
            self.s.add(l)
        self.s.add(extra)
        r = self.s.check()
        if self.models is not None and r == z3.sat:
            self.models.append(self.s.model())
        self.s.pop()
        self.time += time.time() - t0
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    def light_decide(self, pc, c):
        """the value of c on this path, None if open"""
        t0 = time.time()
        self.queries += 1
        try:
            if self.light.unsat(pc, z3.Not(c)):
                return True
            if self.light.unsat(pc, c):
                return False
        finally:
            self.time += time.time() - t0
        self.s.set("rlimit", self.limit // 20)
        try:
            if self.check(pc, c) == z3.unsat:
                return False
            return True if self.check(pc, z3.Not(c)) == z3.unsat else None
        finally:
            self.s.set("rlimit", self.limit)

    def model(self, pc, extra=None):
        self.sync(pc)
        self.s.push()
        if extra is not None:
            self.s.add(extra)
        r = self.s.check()
        mod = self.s.model() if r == z3.sat else None
        self.s.pop()
        return mod

    def guess(self, pc, c, lem=(), models=None):
        """a candidate invariant: dropped unless proved quickly.  models: countermodels of earlier candidates"""
        for m in models or ():
            if z3.is_false(m.eval(c, True)):
                return False
        self.s.set("rlimit", self.limit // 6)
        self.models = models
        try:
            return self.proves(pc, c, lem)
        finally:
            self.models = None
            self.s.set("rlimit", self.limit)

    def proves(self, pc, c, lem=()):
        """True, False (countermodel) or None (unknown)"""
        r = self.check(pc, z3.Not(c), lem)
        return True if r == z3.unsat else (False if r == z3.sat else None)


_CONSTS = {}


def consts(t):
    """the constants of a term"""
    todo = [t]
    while todo:
        x = todo[-1]
        k = x.get_id()
        if k in _CONSTS:
            todo.pop()
            continue
        new = [y for y in x.children() if y.get_id() not in _CONSTS]
        if new:
            todo += new
            continue
        r = frozenset([k]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        for y in x.children():
            r |= _CONSTS[y.get_id()][0]
        _CONSTS[k] = (r, x)
        todo.pop()
    return _CONSTS[t.get_id()][0]


def occurs(c, pc):
    k = c.get_id()
    return any(k in consts(p) for p in pc)


def split_lemmas(st, t, pc=False):
    """instances of q[a:i+1] = q[a:i] + [q[i]] and q[i:i+n+1] = [q[i]] + q[i+1:i+n+1] at the named elements q[i], for the
    slices of q in the goal (and the path condition)"""
    els = [(r[0], r[1], r[2]) for k, r in st.names.items() if len(r) == 3 and k[0] != "comp"]
    for x in st.pc:  # elements held back: invariants [v] = q[i:i+1]
        if z3.is_eq(x) and z3.is_app_of(x.arg(0), z3.Z3_OP_SEQ_UNIT) and z3.is_app_of(x.arg(1), z3.Z3_OP_SEQ_EXTRACT):
            c, y = x.arg(0).arg(0), x.arg(1)
            if z3.is_const(c) and z3.is_int_value(y.arg(2)) and y.arg(2).as_long() == 1 and not any(c.eq(r[0]) for r in els):
                els.insert(0, (c, y.arg(0), y.arg(1)))
    if not els:
        return st.lem
    starts, todo, seen = {}, [t] + (st.pc if pc else []), set()
    fronts = {}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                a = x.arg(1)
                if not z3.is_int_value(a) or a.as_long():
                    starts[x.arg(0).get_id(), a.get_id()] = (x.arg(0), a)
                    if pc:
                        fronts[x.get_id()] = x
            todo.extend(x.children())
    out = []
    for q, a in starts.values():
        for c, q2, i in (els[-6:] if len(els) <= 6 else els[:2] + els[-6:]):
            if q2.eq(q):
                out.append(z3.Implies(z3.And(a >= 0, a <= i, i < z3.Length(q)),
                                      z3.SubSeq(q, a, i + 1 - a) == z3.Concat(z3.SubSeq(q, a, i - a), z3.Unit(c))))
    for x in fronts.values():
        q, a, n = x.arg(0), x.arg(1), x.arg(2)
        for c, q2, i in els[-12:]:
            if q2.eq(q):
                out.append(z3.Implies(z3.And(a == i + 1, i >= 0, n >= 0, i + 1 + n <= z3.Length(q)),
                                      z3.SubSeq(q, i, n + 1) == z3.Concat(z3.Unit(c), x)))
    return st.lem + out[:60] if out else st.lem


class Failure:
    def __init__(self, name, why, st, bounded):
        self.name, self.why, self.st, self.bounded = name, why, st, bounded


class Restart(Exception):
    pass


class InstChanged(Exception):
    def __init__(self, inst):
        self.inst = inst


class Mismatch(Exception):
    pass


class _Sent:
    pass


SENT = _Sent()


class Instance:
    def __init__(self, sig):
        self.sig = sig
        self.base = None
        self.G = {}          # path -> (sort, kind)
        self.dropped = set()
        self.cands = []


class State:
    max_depth = 120

    def __init__(self, ex):
        self.ex = ex
        self.pc = []
        self.known = {}
        self.A = Machine(self, "code")
        self.B = Machine(self, "spec")
        self.visits = {}
        self.active = {}
        self.events = []   # (name, args-of-code, response recipe)
        self.nev = 0
        self.inputs = []
        self.cur = None
        self.extra = {}
        self.names = {}
        self.pauses = {}
        self.lem = []

    def clone(self):
        s = State.__new__(State)
        s.ex = self.ex
        s.pc = list(self.pc)
        s.known = dict(self.known)
        cl = Cloner()
        s.A = self.A.clone(s, cl)
        s.B = self.B.clone(s, cl)
        s.visits = dict(self.visits)
        s.active = dict(self.active)
        s.events = list(self.events)
        s.nev = self.nev
        s.inputs = self.inputs
        s.cur = None
        s.extra = dict(self.extra)
        s.names = dict(self.names)
        s.pauses = dict(self.pauses)
        s.lem = list(self.lem)
        return s

    # ---- services used by the machines
    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k][1]
        nc = z3.simplify(z3.Not(c))
        kn = nc.get_id()
        if kn in self.known:
            return not self.known[kn][1]
        ex = self.ex
        if ex.rec and c.num_args() == 0 and not occurs(c, self.pc):
            raise Fork(c)
        if ex.rec:
            v = ex.solver.light_decide(self.pc, c)
            if v is None:
                raise Fork(c)
            self.known[k] = (c, v)
            return v
        a = ex.solver.check(self.pc, c) != z3.unsat
        b = ex.solver.check(self.pc, z3.Not(c)) != z3.unsat
        if a and b:
            raise Fork(c)
        if not a and not b:
            raise Dead()
        self.known[k] = (c, a)
        return a

    def assume(self, c, val=True):
        self.known[c.get_id()] = (c, val)
        self.pc.append(c if val else z3.Not(c))

    def fact(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        for p in self.pc:
            if p.eq(t):
                return
        self.pc.append(t)

    def assume_note(self, s):
        self.ex.assumptions.add(s)

    def note_function(self, code):
        if self.cur == "code":
            self.ex.functions.add(code)

    def summary(self, fn):
        return self.ex.summaries.get(fn) if self.cur == "code" or self.ex.summ_both else None

    def rec_summary(self, m, code):
        """induction: a recursive call stands for its contract"""
        r = self.ex.rec
        if not r or self.cur != "code" and not self.ex.summ_both:
            return None
        s = r.get(code.co_qualname)
        if s is None or s.__code__ is code or not code.co_filename.startswith(self.ex.rec_file):
            return None
        return s if any(f.ci.co is code for f in m.frames) else None

    def global_override(self, g, n, v):
        o = self.ex.overrides
        if o:
            k = (g.get("__name__"), n)
            if k in o:
                self.ex.used_overrides.add(k)
                return o[k]
        return v

    def may_be_none(self, ty):
        return isinstance(ty, (lang.AnyT, lang.NoneT, lang.OneOf, lang.ConstT))

    def is_fun(self, ty):
        return isinstance(ty, lang.FunT)

    def fresh(self, sort, hint):
        self.ex.nfresh += 1
        return z3.Const(f"{hint}!{self.ex.nfresh}", T.SORTS[sort])

    def is_external(self, t):
        """the value came from outside as it is: no object() the code keeps to itself (handing one out is an event or a
        result, which the specification does not have)"""
        for _ in range(2):
            if not z3.is_const(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return False
            if t.decl().name() in self.ex.external:
                return True
            t = next((r[1] for r in self.names.values() if r[0].eq(t)), None)
            if t is None:
                return False
        return False

    def concretize_len(self, s):
        n = z3.Length(s.t)
        for k in range(4):
            if self.decide(n == k):
                return k
        self.ex.bound("argument lists of symbolic length unrolled to 3")
        raise Dead()

    def force(self, m, v):
        ty = v.ty
        r = self._decode(m, v.t, ty)
        return v if r is None else r

    def name_elem(self, t):
        """a name for an element in bounds, q[i]: keeps the terms small and free of z3's out-of-bounds cases"""
        s = z3.simplify(t)
        if t.decl().kind() != z3.Z3_OP_SEQ_NTH:
            return s
        d = self.names.get(("def", t.arg(0).get_id()))
        if d is not None:
            s = z3.simplify(d[0][t.arg(1)])
        if s.decl().kind() != z3.Z3_OP_ITE and s.decl().name() not in ("seq.nth_i", "seq.nth", "seq.nth_u"):
            return s
        q, i = z3.simplify(t.arg(0)), z3.simplify(t.arg(1))
        if self.ex.rec:
            e = M.trees.locate(self, q, i)
            if not isinstance(e, tuple):
                return e
            q, i = e
        k = (q.get_id(), i.get_id())
        r = self.names.get(k)
        if r is None:
            c = self.fresh("V", "e")
            r = self.names[k] = (c, q, i)
            u = z3.Unit(c)
            self.pc.append(u == z3.SubSeq(q, i, 1))
            # instances of the two splitting lemmas of sequences at this element
            self.lem.append(z3.SubSeq(q, 0, i + 1) == z3.Concat(z3.SubSeq(q, 0, i), u))
            n = z3.Length(q) - i
            self.lem.append(z3.SubSeq(q, i, n) == z3.Concat(u, z3.SubSeq(q, i + 1, n - 1)))
            if self.ex.rec and z3.is_int_value(i) and i.as_long() == 0:
                M.trees.head_facts(self, q, c)
        return r[0]

    def components(self, t, n):
        """names for the components of a tuple"""
        if t.decl().name() == "vtup":
            us = self._units(t.arg(0))
            if us is not None and len(us) == n:
                return us
        k = ("comp", t.get_id())
        r = self.names.get(k)
        if r is None:
            r = self.names[k] = tuple(self.fresh("V", "c") for _ in range(n)) + (t,)
            self.pc.append(t == V.vtup(T.seq_of(r[:n])))
        return r[:n]

    def name_seq(self, t):
        """a name for a compound sequence term"""
        t = z3.simplify(t)
        if not t.num_args() or self.ex.rec and z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED):
            return t
        if self._units(t) is not None:
            return t
        k = t.get_id()
        r = self.names.get(k)
        if r is None:
            c = self.fresh("Q", "s")
            r = self.names[k] = (c, t)
            self.names["def", c.get_id()] = (t, c)
            self.pc.append(c == t)
        return r[0]

    def unembed(self, m, t, ty):
        if ty is None or isinstance(ty, (lang.AnyT, lang.AtomT, lang.KeyT)):
            return self._decode_untyped(m, t)
        if isinstance(ty, tree.TreeT):
            return M.trees.unembed(self, m, t)
        if isinstance(ty, lang.IntT):
            self.fact(V.is_vint(t))
            if ty.lo is not None:
                self.fact(V.vi(t) >= ty.lo)
            if ty.hi is not None:
                self.fact(V.vi(t) <= ty.hi)
            r = mkint(V.vi(t))
            return Sym("I", r.t, ty) if isinstance(r, Sym) and (ty.lo is not None or ty.hi is not None) else r
        if isinstance(ty, lang.BoolT):
            self.fact(V.is_vbool(t))
            return mkbool(V.vb(t))
        if isinstance(ty, lang.TupT):
            q = V.tq(t)
            if self.ex.rec:
                cs = self.components(t, len(ty.ts))
                return tuple(self.unembed(m, c, x) for c, x in zip(cs, ty.ts))
            self.fact(t == V.vtup(T.seq_of([q[i] for i in range(len(ty.ts))])))
            return tuple(self.unembed(m, z3.simplify(q[i]), x) for i, x in enumerate(ty.ts))
        if isinstance(ty, lang.SeqT):
            self.fact(V.is_vtup(t))
            return SSeq(V.tq(t), "tuple", ty.t)
        if isinstance(ty, lang.StrT):
            q = self.fresh("Q", "str")
            self.fact(t == V.vstr(M.uf("chars", T.Q, z3.StringSort())(q)))
            return SSeq(q, "str", lang.Char)
        if isinstance(ty, M.AbsTy):
            return ty.fun
        if isinstance(ty, (M.ObjTy, M.ClosTy)):
            q = V.oq(t)
            k = ty.code if isinstance(ty, M.ClosTy) else (ty.cls, ty.names)
            self.fact(t == V.vobj(z3.IntVal(T.CLS.of(k)), T.seq_of([q[i] for i in range(len(ty.ts))])))
            vs = [self.unembed(m, z3.simplify(q[i]), x) for i, x in enumerate(ty.ts)]
            if isinstance(ty, M.ObjTy):
                return Obj(ty.cls, dict(zip(ty.names, vs)))
            return VFunc(ty.code, ty.globs, (), None, tuple(VCell(x) for x in vs))
        r = self._decode_untyped(m, t)
        if not isinstance(r, Sym):
            return r
        if isinstance(ty, lang.CharT):
            self.fact(z3.And(V.is_vstr(t), z3.Length(V.vs(t)) == 1))
            return Sym("V", t, ty)
        if isinstance(ty, lang.ConstT):
            self.fact(z3.Or(*[t == embed(v) for v in ty.vals]))
            return Sym("V", t)
        return Sym("V", t, ty)

    def _decode(self, m, t, ty):
        """object of a typed term (forks on the case)"""
        if isinstance(ty, tree.TreeT):
            return M.trees.decode(self, m, t)
        if isinstance(ty, (lang.OptT, lang.ResT)):
            cases = self.ex.cases(ty)
            q = V.oq(t)
            conds = [t == V.vobj(z3.IntVal(T.CLS.of(cls)), T.seq_of([V.vstr(z3.StringVal(tag)), embed(None) if const else q[1]]))
                     for cls, tag, mk, inner, const in cases]
            self.fact(z3.Or(*conds))
            for (cls, tag, mk, inner, const), c in zip(cases, conds):
                if self.decide(c):
                    return mk(m, self.unembed(m, z3.simplify(q[1]), inner))
            raise Dead()
        return None

    def _decode_untyped(self, m, t):
        d = t.decl().name() if z3.is_app(t) else ""
        if d == "vint":
            return mkint(t.arg(0))
        if d == "vbool":
            return mkbool(t.arg(0))
        if d == "vnone":
            return None
        if d == "vstr" and z3.is_string_value(t.arg(0)):
            return t.arg(0).as_string()
        if d in ("vtup", "vlist"):
            us = self._units(t.arg(0))
            if us is not None:
                items = [self._decode_untyped(m, u) for u in us]
                return tuple(items) if d == "vtup" else VList(items)
            return SSeq(t.arg(0), "tuple") if d == "vtup" else VList(None, t.arg(0))
        if d == "vobj":
            us = self._units(t.arg(1))
            if us is not None and z3.is_int_value(t.arg(0)):
                cls = T.CLS.rev[t.arg(0).as_long()]
                return self.ex.rebuild(m, cls, [self._decode_untyped(m, u) for u in us])
        if d == "vatom" and z3.is_int_value(t.arg(0)):
            n = -t.arg(0).as_long()
            if 1 <= n <= len(T.ATOMS.keep):
                return T.ATOMS.keep[n - 1]
        return Sym("V", t)

    def _units(self, q):
        q = z3.simplify(q)
        k = q.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return []
        if k == z3.Z3_OP_SEQ_UNIT:
            return [q.arg(0)]
        if k == z3.Z3_OP_SEQ_CONCAT:
            out = []
            for i in range(q.num_args()):
                u = self._units(q.arg(i))
                if u is None:
                    return None
                out += u
            return out
        return None

    def exc_match(self, m, e, t):
        raise Unsupported("symbolic exception class")

    def exc_class(self, t, n):
        f = M.uf(f"exc_is_{t.__module__}.{t.__qualname__}", T.V, T.B)
        self.ex.exc_classes[t] = f
        return f(n)

    def sym_exc(self, e):
        return Obj(lang.UserError, {"args": (e,), "n": e, "payload": e})

    def parse_number(self, m, what, v):
        if isinstance(v, SSeq) and v.kind == "str":
            if not self.decide(M.uf(f"is_{what}", T.Q, T.B)(v.t)):
                raise PyExc(M.mk_exc(ValueError, f"not a valid {what}"))
            if what == "int":
                return mkint(M.uf("val_int", T.Q, T.I)(v.t))
            return Sym("V", M.uf("val_float", T.Q, T.V)(v.t))
        raise Unsupported(f"{what}() of a symbolic value")

    def str_join(self, m, sep, it):
        q = seqterm(it)
        if sep == "" and isinstance(M.seq_ty(it), (lang.CharT, M._Wild)):
            return SSeq(q, "str", lang.Char)
        return m.opaque_str("join", [sep, SSeq(q)])




# ------------------------------------------------------------------ walking states
def embeddable(v, depth=0):
    if isinstance(v, (Sym, SSeq, int, str, type(None), bool)):
        return True
    if isinstance(v, tuple):
        return all(embeddable(x) for x in v)
    if isinstance(v, Obj):
        if v.cls not in M.Registry.by_attrs and M.find_embed(v.cls) is None:
            return False
        try:
            embed(v)
            return True
        except Unsupported:
            return False
    if isinstance(v, VList):
        return v.items is None or all(embeddable(x) for x in v.items)
    if isinstance(v, (AbsFun, VFunc, VGen, VMethod, VIter, VDict, VSet, VCell, BNat, Frame)):
        return False
    return is_conc(v) and not isinstance(v, (dict, list))


class Sig:
    """coarse control/shape signature"""

    def __init__(self):
        self.out = []
        self.seen = {}

    def state(self, st):
        for m in (st.A, st.B):
            self.out.append((m.label, m.status, len(m.frames), m.event[0] if m.event else None))
            for f in m.frames:
                self.v(f)
            if m.event:
                self.out.append(len(m.event[1]) if m.event[1].__class__ is tuple else "S")
                if m.event[1].__class__ is tuple:
                    for x in m.event[1]:
                        self.v(x)
                self.v(m.event[2])
                self.v(m.event_ret)
            self.v(m.result)
            self.v(m.exc)
        return hash(tuple(self.out))

    def v(self, v):
        o = self.out
        c = v.__class__
        if c is bool or c is str:
            o.append(v)
        elif c is int:
            o.append("I")
        elif v is None:
            o.append("N")
        elif c is Sym:
            o.append(v.sort)
        elif c is SSeq:
            o.append(("T", v.kind))
        elif c is tuple:
            if embeddable(v):
                o.append(("T", "tuple"))
            else:
                o.append(("t", len(v)))
                for x in v:
                    self.v(x)
        elif c in (AbsFun,):
            o.append(("fun", v.name))
        elif c in _HEAP:
            k = id(v)
            if k in self.seen:
                o.append(("@", self.seen[k]))
                return
            self.seen[k] = len(self.seen)
            self.heap(v, c)
        else:
            o.append(("k", id(v)))

    def heap(self, v, c):
        o = self.out
        if c is Obj:
            o.append(("O", id(v.cls), tuple(v.attrs)))
            for x in v.attrs.values():
                self.v(x)
        elif c is VList:
            if embeddable(v):
                o.append("L")
            else:
                o.append(("l", len(v.items)))
                for x in v.items:
                    self.v(x)
        elif c is VDict or c is VSet:
            o.append(("D", tuple(map(repr, v.d))))
            for x in v.d.values():
                self.v(x)
        elif c is VCell:
            o.append("C")
            self.v(v.v)
        elif c is VFunc:
            o.append(("F", id(v.code)))
            self.v(v.closure)
            self.v(tuple(v.defaults or ()))
        elif c is VGen:
            o.append(("G", v.state))
            self.v(v.frame)
        elif c is Frame:
            # locals that can no longer be read carry no state
            lv = v.ci.live(v.i)
            dead = [n for n in v.loc if n not in lv and n in v.ci.fast]
            for n in dead:
                del v.loc[n]
            o.append(("fr", id(v.ci.co), v.i, len(v.stack), tuple(sorted(v.loc))))
            for n in sorted(v.loc):
                self.v(v.loc[n])
            for x in v.stack:
                self.v(x)
            self.v(v.cur_exc)
            self.v(v.ret)
        elif c is VMethod:
            o.append("M")
            self.v(v.self)
            self.v(v.fn)
        elif c is BNat:
            o.append(("N", v.name))
            self.v(v.self)
        elif c is VIter:
            o.append(("it", v.step, v.done, v.seq.__class__ is tuple and v.idx.__class__ is int, v.src and v.src[1]))
            self.v(v.seq)
        elif c is VSlice:
            o.append("sl")
            self.v(v.lo), self.v(v.hi), self.v(v.step)
        elif c is VSuper:
            self.v(v.obj)
        elif c is AGWrap:
            o.append("W")
            self.v(v.v)
        elif c is VAnext:
            o.append(("an", v.done))
            self.v(v.gen), self.v(v.val), self.v(v.exc)


_HEAP = {Obj, VList, VDict, VSet, VCell, VFunc, VGen, Frame, VMethod, BNat, VIter, VSlice, VSuper, AGWrap, VAnext}


class Leaf:
    __slots__ = ("path", "a", "b", "sort", "kind", "ty")

    def __init__(self, path, a, b, sort, kind, ty=None):
        self.path, self.a, self.b, self.sort, self.kind, self.ty = path, a, b, sort, kind, ty


def seqkind(v):
    return "tuple" if isinstance(v, tuple) else v.kind


def _ity(a, b):
    """the interval two integers are known to lie in"""
    x, y = (v.ty if isinstance(v, Sym) else None for v in (a, b))
    return M.lub(x, y) if x is not None and y is not None else None


class Join:
    """parallel walk of two states with the same signature: pairs of leaves.  With `subst` it rewrites the first state."""

    def __init__(self, G=(), subst=None):
        self.leaves = []
        self.seen = {}
        self.G = G
        self.subst = subst

    def states(self, s, t):
        for m, n, lab in ((s.A, t.A, "A"), (s.B, t.B, "B")):
            if len(m.frames) != len(n.frames) or m.status != n.status:
                raise Mismatch("frames")
            for i, (f, g) in enumerate(zip(m.frames, n.frames)):
                self.v(f, g, f"{lab}{i}")
            if m.event:
                if m.event[0] != n.event[0]:
                    raise Mismatch("event")
                a = self.v(m.event[1], n.event[1], f"{lab}.ev")
                k = self.v(m.event[2], n.event[2], f"{lab}.evk")
                m.event_ret = self.v(m.event_ret, n.event_ret, f"{lab}.er")
                if self.subst is not None:
                    m.event = (m.event[0], a, k, m.event[3])
            m.result = self.v(m.result, n.result, f"{lab}.res")
            m.exc = self.v(m.exc, n.exc, f"{lab}.exc")
        return self.leaves

    def leaf(self, path, a, b, sort, kind, ty=None):
        self.leaves.append(Leaf(path, a, b, sort, kind, ty))
        if self.subst is not None and path in self.subst:
            return self.subst[path]
        return a

    def v(self, a, b, p):
        c, d = a.__class__, b.__class__
        if c is tuple or c is SSeq:
            if not (d is tuple or d is SSeq):
                raise Mismatch(p)
            if p in self.G:
                return self.leaf(p, a, b, "Q", seqkind(a), _lty(a, b))
            if c is tuple and d is tuple and len(a) == len(b):
                n, sn = len(self.leaves), dict(self.seen)
                try:
                    return tuple([self.v(x, y, f"{p}/{i}") for i, (x, y) in enumerate(zip(a, b))])
                except Mismatch:
                    if self.subst is not None or not (embeddable(a) and embeddable(b)):
                        raise
                    del self.leaves[n:]
                    self.seen = sn
            if seqkind(a) != seqkind(b):
                raise Mismatch(p)
            return self.leaf(p, a, b, "Q", seqkind(a), _lty(a, b))
        if c is bool or d is bool:
            if (c is bool or c is Sym and a.sort == "B") and (d is bool or d is Sym and b.sort == "B"):
                return self.leaf(p, a, b, "B", "B")
            if a is b:
                return a
            raise Mismatch(p)
        if c is int or (c is Sym and a.sort == "I"):
            if not (d is int or d is Sym and b.sort == "I"):
                raise Mismatch(p)
            return self.leaf(p, a, b, "I", "I", _ity(a, b))
        if c is Sym:
            if d is not Sym or a.sort != b.sort:
                raise Mismatch(p)
            return self.leaf(p, a, b, a.sort, a.sort, M.lub(a.ty, b.ty) if a.sort == "V" else None)
        if c is not d:
            raise Mismatch(f"{p}: {c.__name__} vs {d.__name__}")
        if c in _HEAP:
            k = id(a)
            if k in self.seen:
                if self.seen[k][0] != id(b):
                    raise Mismatch(f"{p}: aliasing")
                return self.seen[k][1]
            self.seen[k] = (id(b), a, b)
            self.heap(a, b, c, p)
            return a
        if c is AbsFun:
            if a.name != b.name:
                raise Mismatch(p)
            return a
        if a is b or (c in (str, float, bytes) and a == b):
            return a
        try:
            if a == b:
                return a
        except Exception:
            pass
        raise Mismatch(f"{p}: {a!r} vs {b!r}")

    def heap(self, a, b, c, p):
        if c is Obj:
            if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
                raise Mismatch(p)
            for n in a.attrs:
                a.attrs[n] = self.v(a.attrs[n], b.attrs[n], f"{p}.{n}")
        elif c is VList:
            if p + "[]" not in self.G and a.items is not None and b.items is not None and len(a.items) == len(b.items):
                a.items = [self.v(x, y, f"{p}[{i}]") for i, (x, y) in enumerate(zip(a.items, b.items))]
                return
            r = self.leaf(p + "[]", a, b, "Q", "list", _lty(a, b))
            if r is not a:
                a.items, a.t, a.ty = None, r.t, r.ty
        elif c is VDict or c is VSet:
            if list(map(repr, a.d)) != list(map(repr, b.d)):
                raise Mismatch(p)
            for n in a.d:
                a.d[n] = self.v(a.d[n], b.d[n], f"{p}[{n!r}]")
        elif c is VCell:
            a.v = self.v(a.v, b.v, p + "^")
        elif c is VFunc:
            if a.code is not b.code:
                raise Mismatch(p)
            a.closure = self.v(a.closure, b.closure, p + "~")
            a.defaults = self.v(a.defaults or (), b.defaults or (), p + "~d")
        elif c is VGen:
            if a.state != b.state:
                raise Mismatch(p)
            a.frame = self.v(a.frame, b.frame, p + "g")
        elif c is Frame:
            if a.ci is not b.ci or a.i != b.i or len(a.stack) != len(b.stack) or set(a.loc) != set(b.loc):
                raise Mismatch(p)
            for n in sorted(a.loc):
                a.loc[n] = self.v(a.loc[n], b.loc[n], f"{p}.{a.ci.co.co_name}.{n}")
            a.stack = [self.v(x, y, f"{p}.s{i}") for i, (x, y) in enumerate(zip(a.stack, b.stack))]
            a.cur_exc = self.v(a.cur_exc, b.cur_exc, p + ".ce")
            a.closure = self.v(a.closure, b.closure, p + ".cl")
            a.gen = self.v(a.gen, b.gen, p + ".gen")
            if a.ret is not b.ret or True:
                a.ret = self.ret(a.ret, b.ret, p + ".ret")
        elif c is VMethod:
            a.self = self.v(a.self, b.self, p + ".self")
            a.fn = self.v(a.fn, b.fn, p + ".fn")
        elif c is BNat:
            if a.name != b.name:
                raise Mismatch(p)
            a.self = self.v(a.self, b.self, p + ".self")
        elif c is VIter:
            if a.step != b.step or a.done != b.done:
                raise Mismatch(p)
            if (a.src is None) != (b.src is None) or a.src is not None and a.src[1] != b.src[1]:
                raise Mismatch(p)
            if a.src is not None:
                self.v(a.src[0], b.src[0], p + ".src")
            a.seq = self.v(a.seq, b.seq, p + ".seq")
            a.idx = self.v(a.idx, b.idx, p + ".idx")
        elif c is VSlice:
            a.lo, a.hi, a.step = self.v(a.lo, b.lo, p + ".lo"), self.v(a.hi, b.hi, p + ".hi"), self.v(a.step, b.step, p + ".st")
        elif c is VSuper:
            a.obj = self.v(a.obj, b.obj, p + ".o")
        elif c is AGWrap:
            a.v = self.v(a.v, b.v, p + ".w")
        elif c is VAnext:
            if a.done != b.done:
                raise Mismatch(p)
            a.gen, a.val, a.exc = self.v(a.gen, b.gen, p + ".g"), self.v(a.val, b.val, p + ".v"), self.v(a.exc, b.exc, p + ".e")

    def ret(self, a, b, p):
        # continuation descriptors: tuples whose ints are code positions, not data
        if len(a) != len(b) or a[0] != b[0]:
            raise Mismatch(p)
        out = [a[0]]
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out.append(self.ret(x, y, f"{p}{i}") if isinstance(y, tuple) else _mm(p))
            elif isinstance(x, int):
                if x != y:
                    raise Mismatch(p)
                out.append(x)
            elif isinstance(x, str):
                if x != y:
                    raise Mismatch(p)
                out.append(x)
            else:
                out.append(self.v(x, y, f"{p}{i}"))
        return tuple(out)


def _lty(a, b):
    t = M.lub(M.seq_ty(a), M.seq_ty(b)) if not isinstance(a, str) and not isinstance(b, str) else None
    return None if t is M.WILD else t


def _mm(p):
    raise Mismatch(p)


def term_of(v, sort):
    if sort == "I":
        return M.iterm(v)
    if sort == "B":
        return z3.BoolVal(v) if isinstance(v, bool) else v.t
    if sort == "V":
        return embed(v)
    return seqterm(v)


# ------------------------------------------------------------------ comparing values of the two sides
class Same:
    def __init__(self, st):
        self.st = st
        self.conj = []
        self.seen = set()

    def eq(self, a, b):
        """False when certainly different; otherwise adds conjuncts"""
        if a is b and not isinstance(a, float):
            return True
        if (id(a), id(b)) in self.seen:
            return True
        if isinstance(a, Sym) and a.ty is not None and isinstance(b, Obj):
            return self.term(a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            self.seen.add((id(a), id(b)))
            if a.cls is not b.cls:
                return False
            if M.is_tagged(a.cls):
                if a.attrs.get("tag") != b.attrs.get("tag"):
                    return False
                t = a.attrs.get("tag")
                return self.eq(a.attrs.get(t), b.attrs.get(t))
            if set(a.attrs) != set(b.attrs):
                return False
            return all(self.eq(a.attrs[n], b.attrs[n]) for n in a.attrs)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, VList) and isinstance(b, VList):
            self.seen.add((id(a), id(b)))
            if a.items is not None and b.items is not None:
                return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
            self.conj.append(seqterm(a) == seqterm(b))
            return True
        if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
            if seqkind(a) != seqkind(b):
                return False
            self.conj.append(seqterm(a) == seqterm(b))
            return True
        if isinstance(a, SSeq) and a.kind == "str" and isinstance(b, str) or isinstance(b, SSeq) and b.kind == "str" and isinstance(a, str):
            self.conj.append(seqterm(a) == seqterm(b))
            return True
        if isinstance(a, VDict) and isinstance(b, VDict):
            return set(a.d) == set(b.d) and all(self.eq(a.d[k], b.d[k]) for k in a.d)
        if isinstance(a, VSet) and isinstance(b, VSet):
            return set(a.d) == set(b.d)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.term(a, b)
        if isinstance(a, AbsFun) and isinstance(b, AbsFun):
            return a.name == b.name
        if isinstance(a, (VFunc, VGen, VMethod, VIter, BNat)) or isinstance(b, (VFunc, VGen, VMethod, VIter, BNat)):
            if type(a) is not type(b):
                return False
            raise Unsupported("comparison of functions or iterators as observed values")
        if isinstance(a, (Obj, VList, VDict, SSeq)) or isinstance(b, (Obj, VList, VDict, SSeq)):
            return False
        if is_conc(a) and is_conc(b):
            return type(a) is type(b) and (a is b or a == b)
        return False

    def term(self, a, b):
        try:
            self.conj.append(embed(a) == embed(b))
            return True
        except Unsupported:
            return False


# ------------------------------------------------------------------ the explorer
# properties whose user values may be equal without being the same (elsewhere == on user values is identity: see ASSUME)
LOOSE = {"C01", "C02", "C03", "C05", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}


def only_const(t, c):
    """t speaks of c and of no other unknown"""
    todo, found, seen = [t], False, set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 80 or not z3.is_app(x):
            return False
        if x.eq(c):
            found = True
        elif x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        todo.extend(x.children())
    return found


def seq_parts(t):
    """the operands of a concatenation"""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [p for a in t.children() for p in seq_parts(a)]
    return [] if z3.is_app_of(t, z3.Z3_OP_SEQ_EMPTY) else [t]


class Explorer:
    def __init__(self, contract, solver=None, overrides=None, summaries=None, unroll=None, budget=None):
        self.c = contract
        self.solver = solver or Solver()
        self.overrides = overrides or {}
        self.summaries = summaries or {}
        self.summ_both = bool(contract.opt.get("both"))
        self.rec = contract.opt.get("rec")
        self.rec_file = REPO
        self.assumptions = set()
        self.functions = set()
        self.bounds = set()
        self.nfresh = 0
        self.cutset = set()
        self.lockstep = False
        self.loose = contract.opt.get("loose", contract.prop in LOOSE)
        self.peel = None
        self.used_overrides = set()
        self.external = set()  # names of arguments and of results of events
        self.align = set()
        self.obl = []
        self.fail = []
        self.unroll = unroll
        self.paths = 0
        self.pruned = 0
        self.steps = 0
        self.max_steps = budget or 600000
        self.threshold = 4
        self.completed = 0
        self.deadline = None
        self.exc_classes = {}
        self.invariants = []

    def bound(self, s):
        self.bounds.add(s)

    # ---- library values
    def cases(self, ty):
        if isinstance(ty, lang.TryT):
            from expression import Failure as F, Success as S
            return [self._case(S, "ok", ty.t), self._case(F, "error", ExcTy)]
        if isinstance(ty, lang.ResT):
            from expression import Error, Ok
            return [self._case(Ok, "ok", ty.t), self._case(Error, "error", ty.e)]
        from expression import Nothing, Some
        return [self._case(Some, "some", ty.t),
                (type(Nothing), "none", lambda m, x: m.lift(Nothing), None, True)]

    def _case(self, ctor, tag, inner):
        tmpl = ctor(SENT)
        return (type(tmpl), tag, lambda m, x: self.fill(m, ctor, x), inner, False)

    def fill(self, m, ctor, x):
        o = m.lift(ctor(SENT))
        n = 0
        for k, v in o.attrs.items():
            if v is SENT:
                o.attrs[k] = x
                n += 1
        if not n:
            raise Unsupported(f"constructor template {ctor}")
        return o

    def rebuild(self, m, cls, fields):
        if M.is_tagged(cls):
            tag, val = fields
            return self.fill(m, lambda s: cls(**{tag: s}), val)
        names = getattr(cls, "__pv_embed__", None)
        if names:
            return Obj(cls, dict(zip(names, fields)))
        raise Unsupported(f"rebuild {cls}")

    # ---- alternatives of a type: list of (mk(machine) -> value, recipe, facts)
    def alts(self, st, ty, hint):
        if isinstance(ty, tree.TreeT):
            c = st.fresh("V", hint)
            return [(lambda m: Sym("V", c, ty), ("tree", c), M.trees.base_facts(c))]
        if isinstance(ty, (lang.AnyT, lang.AtomT, lang.KeyT)):
            c = st.fresh("V", hint)
            self.external.add(c.decl().name())
            return [(lambda m: Sym("V", c), ("V", c), [])]
        if isinstance(ty, lang.IntT):
            c = st.fresh("I", hint)
            f = []
            if ty.lo is not None:
                f.append(c >= ty.lo)
            if ty.hi is not None:
                f.append(c <= ty.hi)
            return [(lambda m: Sym("I", c), ("I", c), f)]
        if isinstance(ty, lang.BoolT):
            c = st.fresh("B", hint)
            return [(lambda m: Sym("B", c), ("B", c), [])]
        if isinstance(ty, lang.NoneT):
            return [(lambda m: None, ("const", None), [])]
        if isinstance(ty, lang.ConstT):
            return [((lambda v: lambda m: m.lift(v))(v), ("const", v), []) for v in ty.vals]
        if isinstance(ty, lang.TryT):
            from expression import Failure as F, Success as S
            return self._ctor(st, S, "Success", ty.t, hint) + self._ctor(st, F, "Failure", ExcTy, hint)
        if isinstance(ty, lang.ResT):
            from expression import Error, Ok
            return self._ctor(st, Ok, "Ok", ty.t, hint) + self._ctor(st, Error, "Error", ty.e, hint)
        if isinstance(ty, lang.OptT):
            from expression import Nothing, Some
            return self._ctor(st, Some, "Some", ty.t, hint) + [(lambda m: m.lift(Nothing), ("Nothing",), [])]
        if isinstance(ty, ExcTyT):
            c = st.fresh("V", hint)
            return [(lambda m: Obj(lang.UserError, {"args": (Sym("V", c),), "n": Sym("V", c)}), ("exc", c), [])]
        if isinstance(ty, lang.TupT):
            out = [((), (), [])]
            for i, t in enumerate(ty.ts):
                out = [(a + (mk,), b + (r,), f + g) for a, b, f in out for mk, r, g in self.alts(st, t, f"{hint}_{i}")]
            return [((lambda mks: lambda m: tuple(k(m) for k in mks))(a), ("tup", b), f) for a, b, f in out]
        if isinstance(ty, lang.CharT):
            c = st.fresh("V", hint)
            return [(lambda m: Sym("V", c, ty), ("V", c), [V.is_vstr(c), z3.Length(V.vs(c)) == 1])]
        if isinstance(ty, lang.StrT):
            c = st.fresh("Q", hint)
            return [(lambda m: SSeq(c, "str", lang.Char), ("Qs", c), [])]
        if isinstance(ty, lang.SeqT):
            c = st.fresh("Q", hint)
            self.external.add(c.decl().name())
            return [(lambda m: SSeq(c, "tuple", ty.t), ("Q", c, ty.t), [])]
        if isinstance(ty, lang.ObjsT):
            c = st.fresh("Q", hint)
            o = st.A.lift(ty.mk(SENT))
            ft = lang.FunT(ty.ret, ty.raises)
            ks = tuple(sorted(o.attrs))
            et = M.ObjTy(o.cls, ks, tuple(ft if o.attrs[k] is SENT else lang.ConstT(o.attrs[k]) for k in ks))
            return [(lambda m: SSeq(c, "tuple", et), ("Qf", c, et), [])]
        if isinstance(ty, lang.FunsT):
            c = st.fresh("Q", hint)
            ft = lang.FunT(ty.ret, ty.raises)
            return [(lambda m: SSeq(c, "tuple", ft), ("Qf", c, ft), [])]
        if isinstance(ty, lang.FunT):
            f = AbsFun(hint, ty)
            return [(lambda m: f, ("fun", hint, ty), [])]
        if isinstance(ty, lang.OneOf):
            return [a for t in ty.ts for a in self.alts(st, t, hint)]
        raise Unsupported(f"type {ty}")

    def _ctor(self, st, ctor, name, inner, hint):
        return [((lambda mk: lambda m: self.fill(m, ctor, mk(m)))(mk), (name, r), f) for mk, r, f in self.alts(st, inner, hint)]

    # ---- main
    def run(self):
        M.Registry.by_attrs = set(self.c.opt.get("records", ()))
        while True:
            try:
                self.obl, self.fail, self.paths, self.completed, self.pruned = [], [], 0, 0, 0
                self.invariants = []
                self._run_once()
                return
            except Restart:
                continue

    def _run_once(self):
        work = []
        st0 = State(self)
        combos = [([], [], [])]
        for n, ty in self.c.args.items():
            combos = [(v + [(n, mk)], r + [(n, rec)], f + g) for v, r, f in combos for mk, rec, g in self.alts(st0, ty, n)]
        for v, r, f in combos:
            st = State(self)
            for x in f:
                st.fact(x)
            st.inputs = r
            a = [mk(st.A) for _, mk in v]
            b = [mk(st.B) for _, mk in v]
            st.cur = "code"
            st.A.start(self.c.code, a)
            st.cur = "spec"
            st.B.start(self.c.spec, b)
            work.append(st)
        self.worklist(work)

    def worklist(self, work):
        while work:
            st = work.pop()
            try:
                self.drive(st, work)
            except (Dead, M.threads.Redundant):
                self.pruned += 1

    def drive(self, st, work):
        while True:
            m = st.A if st.A.status == "run" else st.B if st.B.status == "run" else None
            if m is None and ("paused" in (st.A.status, st.B.status)):
                ms = [x for x in (st.A, st.B) if x.status == "paused"]
                for x in ms:
                    x.status = "run"
                if self.cut(st, work, True, *ms):
                    return
                continue
            if m is None:
                if self.sync(st, work):
                    return
                continue
            st.cur = m.label
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step budget")
            if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline:
                raise Unsupported("time budget")
            try:
                m.step()
            except Fork as fk:
                s2 = st.clone()
                s2.assume(fk.cond, False)
                work.append(s2)
                if len(work) > 4000:
                    raise Unsupported("path budget")
                st.assume(fk.cond, True)
                continue
            if m.last_back:
                m.last_back = None
                if self.lockstep and m.par is None:
                    if self.pause(st, m):
                        m.status = "paused"
                elif self.cut(st, work, True, m):
                    return

    def pause(self, st, m):
        """alignment of silent loops of the two sides: a machine waits at one back edge of its loop for the other"""
        f = m.frames[-1]
        loc = (m.label, f.ci.co, f.i)
        p = st.pauses.get(m.label, 0)
        if loc in self.align:
            if self.peel == m.label:
                k = ("peel", loc, f.sn) + tuple(x.sn for x in f.stack if x.__class__ is VIter)
                if k not in st.visits:
                    st.visits[k] = 1
                    return False
            st.pauses[m.label] = p + 1
            return True
        k = ("al", loc, f.sn, st.nev, p) + tuple(x.sn for x in f.stack if x.__class__ is VIter)
        n = st.visits.get(k, 0) + 1
        st.visits[k] = n
        if n >= 3:
            self.align.add(loc)
            raise Restart()
        return False

    # ---- cut points
    def cut(self, st, work, silent, *ms):
        if st.A.par is not None or st.B.par is not None:
            n = st.visits["threads"] = st.visits.get("threads", 0) + 1
            if n > 200:
                raise Unsupported("unbounded loop of a thread")
            return False
        sig = Sig().state(st)
        key = sig
        for m in ms:
            # a silent loop is identified by its activation: the same code entered again by an enclosing loop is another instance
            f = m.frames[-1]
            key = (key, f.sn) + tuple(x.sn for x in f.stack if x.__class__ is VIter)
        k = (key, st.nev) if silent else sig
        if self.unroll is not None:
            n = st.visits.get(k, 0) + 1
            st.visits[k] = n
            if n > self.unroll:
                raise Dead()
            return False
        if sig in self.cutset:
            inst = st.active.get(key)
            if inst is not None:
                self.back_edge(st, inst)
                return True
            self.explore_instance(st, sig, key)
            return True
        if ms:
            f = ms[0].frames[-1]
            g = ("grow", f.sn, f.i, st.nev)
            n = st.visits[g] = st.visits.get(g, 0) + 1
            if n > 24:
                raise Unsupported("loop builds a structure of unbounded shape")
        n = st.visits.get(k, 0) + 1
        st.visits[k] = n
        if n >= self.threshold:
            self.cutset.add(sig)
            if len(self.cutset) > 60:
                raise Unsupported("too many cut points")
            raise Restart()
        return False

    def explore_instance(self, entry, sig, key):
        inst = Instance(sig)
        mark = (len(self.obl), len(self.fail), len(self.invariants))
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported("invariant inference does not converge")
            s = entry.clone()
            ref = entry.clone()
            # fresh symbols at the generalised positions
            j = Join(inst.G)
            leaves = j.states(s, ref)
            by = {l.path: l for l in leaves}
            subst, gs = {}, {}
            for p, (sort, kind, ty) in inst.G.items():
                if p not in by:
                    raise Unsupported("generalised position vanished")
                c = s.fresh(sort, "h")
                gs[p] = c
                if sort == "I" and ty is not None:
                    if ty.lo is not None:
                        s.fact(c >= ty.lo)
                    if ty.hi is not None:
                        s.fact(c <= ty.hi)
                subst[p] = (Sym("I", c, ty) if sort == "I" else Sym("B", c) if sort == "B" else Sym("V", c, ty) if sort == "V"
                            else SSeq(c, kind, ty) if kind != "list" else VList(None, c, ty))
            cands = self.candidates(entry, by, inst, gs)
            sub = [(gs[p], term_of(by[p].a, inst.G[p][0])) for p in gs]
            if gs:
                Join(inst.G, subst).states(s, entry.clone())
            keep, models = [], []
            for name, t in cands:
                if name in inst.dropped:
                    continue
                t0 = z3.simplify(z3.substitute(t, *sub)) if sub else t
                ok = z3.is_true(t0) or (not z3.is_false(t0) and self.solver.guess(entry.pc, t0, entry.lem, models) is True)
                if ok:
                    keep.append((name, t))
                else:
                    inst.dropped.add(name)
            for name, t in keep:
                s.pc.append(t)
                if name.endswith("=init") and name.startswith(("sflat(", "at(")):
                    M.trees.assume(s, s.A, t)
            inst.cands = keep
            inst.gs = gs
            inst.base = s.clone()
            s.active = dict(entry.active)
            s.active[key] = inst
            self.nback = 0
            try:
                w = [s]
                if entry.A.status == "run" or entry.B.status == "run":
                    self.worklist(w)
                else:
                    # an event cut: continue with the response
                    self.respond(s, w)
                    self.worklist(w)
            except InstChanged as e:
                if e.inst is not inst:
                    raise
                del self.obl[mark[0]:]
                del self.fail[mark[1]:]
                del self.invariants[mark[2]:]
                continue
            self.invariants.append([n for n, _ in keep])
            return

    def back_edge(self, st, inst):
        a = inst.base.clone()
        b = st.clone()
        try:
            leaves = Join(inst.G).states(a, b)
        except Mismatch as e:
            raise Unsupported(f"loop state shape changes: {e}")
        new = {}
        for l in leaves:
            if l.path in inst.G:
                # the generalised position must have the assumed element type again
                ty = inst.G[l.path][2]
                if ty is not None and not M.same_ty(l.ty, ty):
                    new[l.path] = (l.sort, l.kind, l.ty)
                continue
            x, y = term_of(l.a, l.sort), term_of(l.b, l.sort)
            if not x.eq(y):
                if self.solver.guess(st.pc, x == y, st.lem) is True:
                    continue
                new[l.path] = (l.sort, l.kind, l.ty)
        if new:
            # a tuple leaf subsumes its components
            for p in new:
                for q in list(inst.G):
                    if q.startswith(p + "/") or (p.endswith("[]") and q.startswith(p[:-1])):
                        del inst.G[q]
            inst.G.update(new)
            raise InstChanged(inst)
        by = {l.path: l for l in leaves}
        sub = [(inst.gs[p], term_of(by[p].b, inst.G[p][0])) for p in inst.gs]
        changed, models = False, []
        for name, t in inst.cands:
            t1 = z3.simplify(z3.substitute(t, *sub)) if sub else t
            if z3.is_true(t1):
                self.obl.append((f"inv:{name}", "syntactic"))
                continue
            if "flat(" in name or name.startswith("at("):
                # by induction the left side was equal to the right side before the iteration
                if M.trees.holds(st, st.A, t1) or z3.is_eq(t) and M.trees.holds(st, st.A, z3.substitute(t.arg(0), *sub) == t.arg(0)):
                    self.obl.append((f"inv:{name}", "z3"))
                    continue
            if self.solver.guess(st.pc, t1, split_lemmas(st, t1), models) is True:
                self.obl.append((f"inv:{name}", "z3"))
            else:
                inst.dropped.add(name)
                changed = True
        if changed:
            raise InstChanged(inst)
        self.paths += 1

    def candidates(self, entry, by, inst, gs):
        out = []
        ps = sorted(gs)
        sort = {p: inst.G[p][0] for p in ps}
        e = {p: term_of(by[p].a, sort[p]) for p in ps}
        # terms constant during the loop
        qs, ints, seen = [], [], set()

        def addq(t):
            if t.get_id() not in seen:
                seen.add(t.get_id())
                qs.append(t)

        def addi(t):
            if t.get_id() not in seen and not z3.is_int_value(t):
                seen.add(t.get_id())
                ints.append(t)

        for n, r in entry.inputs:
            self._rec_terms(r, addq, addi)
        for p, l in by.items():
            if p in gs or any(p.startswith(g.rstrip("[]") + "/") for g in gs):
                continue
            if l.sort == "Q" and isinstance(l.a, (SSeq, VList)) and getattr(l.a, "t", None) is not None:
                addq(l.a.t)
            elif l.sort == "Q" and isinstance(l.a, tuple):
                addq(seqterm(l.a))
            if l.sort == "I" and isinstance(l.a, Sym):
                addi(l.a.t)
        qs, ints = qs[:6], ints[:8]
        out += M.trees.candidates(self, entry, by, inst, gs, e)
        I = [p for p in ps if sort[p] == "I"]
        Qs = [p for p in ps if sort[p] == "Q"]
        for i, p in enumerate(ps):
            for q in ps[:i]:
                if sort[p] == sort[q]:
                    if sort[p] == "I":
                        out.append((f"{p}-{q}=const", gs[p] - gs[q] == e[p] - e[q]))
                        out.append((f"{p}+{q}=const", gs[p] + gs[q] == e[p] + e[q]))
                        if len(I) <= 6:
                            out.append((f"{p}<={q}", gs[p] <= gs[q]))
                            out.append((f"{p}>={q}", gs[p] >= gs[q]))
                        if p[0] != q[0] and len(I) <= 4:  # counters that stop at a bound, up or down
                            for n, k in [*enumerate(ints[:2]), ("1", z3.IntVal(1))]:
                                out.append((f"{p}~{q}@int{n}", z3.Or(gs[p] == gs[q], z3.And(gs[p] >= k, gs[q] >= k))))
                                for x, y in ((p, q), (q, p)):
                                    out.append((f"{x}=int{n}-{y} or 0", z3.Or(gs[x] + gs[y] == k, z3.And(gs[x] == 0, gs[y] >= k))))
                    elif sort[p] != "V" or p[0] != q[0] or e[p].eq(e[q]):
                        out.append((f"{p}={q}", gs[p] == gs[q]))
                    if sort[p] == "B":
                        out.append((f"{p}=!{q}", gs[p] == z3.Not(gs[q])))
                    if sort[p] == "Q":
                        out.append((f"{p}=init+{q}", gs[p] == z3.Concat(e[p], gs[q])))
                        out.append((f"{q}=init+{p}", gs[q] == z3.Concat(e[q], gs[p])))
                        for x, y in ((p, q), (q, p)):  # one of them started earlier
                            xs, ys = seq_parts(e[x]), seq_parts(e[y])
                            n = len(xs) - len(ys)
                            if n > 0 and ys and all(u.eq(v) for u, v in zip(xs[n:], ys)):
                                out.append((f"{x}=head+{y}", gs[x] == z3.Concat(*xs[:n], gs[y])))
        for p in I:
            out.append((f"{p}>=init", gs[p] >= e[p]))
            out.append((f"{p}<=init", gs[p] <= e[p]))
            out.append((f"{p}>=0", gs[p] >= 0))
            out.append((f"{p}>=-1", gs[p] >= -1))
            for n, q in enumerate(qs):
                out.append((f"{p}<=len{n}", gs[p] <= z3.Length(q)))
                out.append((f"{p}<len{n}", gs[p] < z3.Length(q)))
            for n, x in enumerate(ints):
                out.append((f"{p}<=int{n}", gs[p] <= x))
                out.append((f"{p}>=int{n}", gs[p] >= x))
                out.append((f"{p}<int{n}", gs[p] < x))
        for p in ps:
            if sort[p] == "V" and I and len(I) <= 4:  # an element held back
                for i in I:
                    for n, q in enumerate(qs[:3]):
                        if q.sort() == T.Q:
                            out.append((f"[{p}]=seq{n}[{i}]", z3.Unit(gs[p]) == z3.SubSeq(q, gs[i], 1)))
                if z3.is_const(e[p]) and e[p].decl().kind() == z3.Z3_OP_UNINTERPRETED:  # and what was found out about the first one
                    for n, x in enumerate([x for x in entry.pc if only_const(x, e[p])][-3:]):
                        out.append((f"fact{n}({p})", z3.substitute(x, (e[p], gs[p]))))
        for p in Qs:
            for i in I:
                for n, q in enumerate(qs):
                    out.append((f"{p}=init+seq{n}[init:{i}]", gs[p] == z3.Concat(e[p], z3.SubSeq(q, e[i], gs[i] - e[i]))))
                    if not z3.is_int_value(z3.simplify(e[i])):  # a sequence walked backwards
                        out.append((f"{p}=seq{n}[{i}+1:init+1]+init", gs[p] == z3.Concat(z3.SubSeq(q, gs[i] + 1, e[i] - gs[i]), e[p])))
                    out.append((f"{p}=seq{n}[:{i}]", gs[p] == z3.SubSeq(q, 0, gs[i])))
                    out.append((f"{p}=seq{n}[{i}:]", gs[p] == z3.SubSeq(q, gs[i], z3.Length(q) - gs[i])))
                out.append((f"len({p})-{i}=const", z3.Length(gs[p]) - gs[i] == z3.Length(e[p]) - e[i]))
                out.append((f"len({p})+{i}=const", z3.Length(gs[p]) + gs[i] == z3.Length(e[p]) + e[i]))
                if self.c.opt.get("queues"):
                    out.append((f"len({p})<={i}", z3.Length(gs[p]) <= gs[i]))
                    out.append((f"{p}=[] or {i}>0", z3.Or(z3.Length(gs[p]) == 0, gs[i] > 0)))
            out.append((f"len({p})>=init", z3.Length(gs[p]) >= z3.Length(e[p])))
            out.append((f"len({p})>0", z3.Length(gs[p]) > 0))
            for q in Qs:
                if q != p:
                    out.append((f"len({p})-len({q})", z3.Length(gs[p]) - z3.Length(gs[q]) == z3.Length(e[p]) - z3.Length(e[q])))
                    out.append((f"{p}+{q}=const", z3.Concat(gs[p], gs[q]) == z3.Concat(e[p], e[q])))
        if self.c.opt.get("queues"):
            # histories of queues: what was put in is what came out, what is on its way and what is left
            Vs = [(p, z3.Unit(gs[p])) for p in ps if sort[p] == "V"]
            Vs += [(p, z3.Unit(l.a.t)) for p, l in by.items() if p not in gs and l.sort == "V" and isinstance(l.a, Sym)][:6]
            Qt = {p: gs[p] for p in Qs}
            for p, l in by.items():
                if p not in gs and l.sort == "Q" and isinstance(l.a, VList) and len(Qt) < 5:
                    Qt[p] = term_of(l.a, "Q")
            Z = z3.Empty(T.Q)
            for p in Qs:
                for q in [None, *Qt]:
                    for r in [None, *Qt]:
                        if p in (q, r) or q is not None and q == r:
                            continue
                        a, b = Qt.get(q, Z), Qt.get(r, Z)
                        if q and r:
                            out.append((f"{p}={q}+{r}", gs[p] == z3.Concat(a, b)))
                        for n, v in Vs:
                            out.append((f"{p}={q}+[{n}]+{r}", gs[p] == z3.Concat(a, v, b)))
        return out

    def _rec_terms(self, r, addq, addi):
        if isinstance(r, tuple):
            if r and r[0] in ("Q", "Qf", "Qs"):
                addq(r[1])
            elif r and r[0] == "I":
                addi(r[1])
            else:
                for x in r:
                    self._rec_terms(x, addq, addi)

    # ---- synchronisation on observable events
    def obligation(self, st, name, same, cond):
        """True when discharged"""
        if same is False:
            ok, how = False, "structural"
            r = self.solver.check(st.pc, z3.BoolVal(True), st.lem)
            if r == z3.unsat:
                raise Dead()
        elif not cond:
            ok, how = True, "syntactic"
        else:
            if self.c.opt.get("rec"):
                cond = [x for x in cond if not (z3.is_eq(x) and x.arg(0).sort() == T.Q and M.trees.same_seq(st, x.arg(0), x.arg(1)))]
            t = z3.simplify(z3.And(*cond))
            if z3.is_true(t):
                ok, how = True, "z3" if self.c.opt.get("rec") else "syntactic"
            else:
                v = None
                if self.c.opt.get("rec"):
                    v = self.solver.guess(st.pc, t) or None
                if v is None:
                    v = self.solver.guess(st.pc, t, st.lem)
                if v is None:
                    l = split_lemmas(st, t, True)
                    v = self.solver.proves(st.pc, t, l)
                    if v is None and len(l) > len(st.lem):
                        v = self.solver.proves(st.pc, t, st.lem)
                ok, how = v is True, "z3"
                if v is None:
                    v = cvc5_proves(st.pc + st.lem, t)
                    if v is True:
                        ok, how = True, "cvc5"
                    else:
                        how = "unknown"
                if not ok and v is False:
                    st.pc.append(z3.Not(t))
        if ok:
            self.obl.append((name, how))
        else:
            self.obl.append((name, "failed"))
            self.fail.append(Failure(name, how, st, self.unroll is not None))
        return ok

    def sync(self, st, work):
        """both machines blocked; returns True when the path ended"""
        A, B = st.A, st.B
        if A.status == "done" and B.status == "done":
            self.paths += 1
            self.completed += 1
            if (A.exc is None) != (B.exc is None):
                self.obligation(st, f"outcome[{self.desc(st)}]", False, None)
                return True
            if A.exc is not None:
                same, cond = self.same_exc(st, A.exc, B.exc)
                self.obligation(st, f"exception[{self.desc(st)}]", same, cond)
                return True
            q = Same(st)
            same = q.eq(A.result, B.result)
            self.obligation(st, f"result[{self.desc(st)}]", same, q.conj)
            return True
        if A.status == "event" and B.status == "event":
            n, args, kw, ty = A.event
            n2, args2, kw2, ty2 = B.event
            q = Same(st)
            same = n == n2 and q.eq(args, args2) and q.eq(kw, kw2)
            if not self.obligation(st, f"event {n}[{self.desc(st)}]", same, q.conj):
                return True
            if self.cut(st, work, silent=False):
                return True
            self.respond(st, work)
            return True
        self.obligation(st, f"effects[{self.desc(st)}]", False, None)
        return True

    def desc(self, st):
        return ";".join(e[0] for e in st.events[-4:])

    def respond(self, st, work):
        n, args, kw, ty = st.A.event
        alts = self.alts(st, ty.ret, n + ".r" if isinstance(ty.ret, (lang.FunT, lang.OneOf)) else n)
        outs = [("ret", mk, r, f) for mk, r, f in alts]
        if ty.raises:
            c = st.fresh("V", n + "_exc")
            outs.append(("raise", c, ("raise", c), []))
        st.nev += 1
        for i, (k, mk, r, f) in enumerate(outs):
            s = st.clone() if i < len(outs) - 1 else st
            for x in f:
                s.fact(x)
            s.events.append((n, args, r))
            if k == "ret":
                s.A.respond(mk(s.A))
                s.B.respond(mk(s.B))
            else:
                for m in (s.A, s.B):
                    m.respond_raise(Obj(lang.UserError, {"args": (Sym("V", mk),), "n": Sym("V", mk)}))
            work.append(s)

    def same_exc(self, st, a, b):
        if a.cls is not b.cls and not issubclass(a.cls, b.cls):
            return False, None
        if issubclass(b.cls, lang.UserError) or self.c.opt.get("exc_args"):
            q = Same(st)
            return q.eq(a.attrs.get("args"), b.attrs.get("args")), q.conj
        return True, []


class ExcTyT(lang.Ty):
    pass


ExcTy = ExcTyT()


def cvc5_proves(pc, t, timeout=5):
    """second back end for obligations z3 leaves open"""
    import subprocess
    import tempfile
    s = z3.Solver()
    for c in pc:
        s.add(c)
    s.add(z3.Not(t))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    txt = txt.replace("seq.nth_i", "seq.nth").replace("seq.nth_u", "seq.nth")
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        r = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={timeout * 1000}", f.name], capture_output=True, text=True, timeout=timeout + 5)
        os.unlink(f.name)
        return True if r.stdout.strip().startswith("unsat") else None
    except Exception:
        return None

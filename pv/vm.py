"""A symbolic virtual machine for CPython 3.12 bytecode with a fully reified (cloneable) state.

It executes the code objects that CPython compiled from /repo's current sources.  Values are concrete Python atoms,
SMT terms (Sym, SSeq) or VM heap objects.  Everything the VM does not model raises Unsupported."""
from __future__ import annotations

import dis
import inspect
import itertools
import types

import z3

from . import lang, tree
from . import terms as T
from .lang import AbsFun, Ty
from .terms import V


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the path is infeasible"""


class Fork(Exception):
    """A decision the path condition does not settle."""

    def __init__(self, cond):
        self.cond = cond


class PyExc(Exception):
    """A Python-level exception raised by a native handler."""

    def __init__(self, obj):
        self.obj = obj


class Tail(Exception):
    """A native handler asks for a VM-level call in its place."""

    def __init__(self, fn, args=(), kw=None, ret=None):
        self.fn, self.args, self.kw, self.ret = fn, tuple(args), kw or {}, ret


class _Null:
    def __repr__(self):
        return "NULL"

    def __deepcopy__(self, m):
        return self


NULL = _Null()
UNBOUND = _Null()


# ------------------------------------------------------------------ values
class Sym:
    """An immutable symbolic value; sort is I (int), B (bool) or V (any value)."""

    __slots__ = ("sort", "t", "ty")

    def __init__(self, sort, t, ty=None):
        self.sort, self.t, self.ty = sort, t, ty

    def __repr__(self):
        return f"{self.sort}<{self.t}>"


class SSeq:
    """An immutable sequence of symbolic length."""

    __slots__ = ("t", "kind", "ty")

    def __init__(self, t, kind="tuple", ty=None):
        self.t, self.kind, self.ty = t, kind, ty

    def __repr__(self):
        return f"{self.kind}<{self.t}>"


class IdKey:
    """an object as member of a set, by identity"""

    __slots__ = ("sn",)

    def __init__(self, o):
        if o.sn is None:
            o.sn = next(SERIAL)
        self.sn = o.sn

    def __eq__(self, o):
        return isinstance(o, IdKey) and o.sn == self.sn

    def __hash__(self):
        return self.sn

    def __repr__(self):
        return "object"


class Obj:
    __slots__ = ("cls", "attrs", "tagv", "sn")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs, self.tagv = cls, attrs if attrs is not None else {}, None
        self.sn = None

    def __repr__(self):
        a = {k: v for k, v in self.attrs.items() if not k.startswith("__")}
        return f"{self.cls.__name__}{a}"


class VList:
    __slots__ = ("items", "t", "ty")

    def __init__(self, items=None, t=None, ty=None):
        self.items, self.t, self.ty = items, t, ty

    def __repr__(self):
        return f"list{self.items if self.items is not None else self.t}"


class VDict:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def __repr__(self):
        return f"dict{self.d}"


class VSet:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}


class VCell:
    __slots__ = ("v",)

    def __init__(self, v=UNBOUND):
        self.v = v


class VFunc:
    __slots__ = ("code", "globs", "defaults", "kwdefaults", "closure", "attrs")

    def __init__(self, code, globs, defaults=(), kwdefaults=None, closure=()):
        self.code, self.globs, self.defaults, self.kwdefaults, self.closure = code, globs, defaults, kwdefaults, closure
        self.attrs = {}

    def __repr__(self):
        return f"<vfunc {self.code.co_qualname}>"


class VGen:
    __slots__ = ("frame", "kind", "state", "name")

    def __init__(self, frame, kind):
        self.frame, self.kind, self.state = frame, kind, "new"


class AGWrap:
    """value yielded by an async generator"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class VAnext:
    """awaitable of one async-generator step; mode anext/asend/aclose/athrow"""

    __slots__ = ("gen", "val", "exc", "done")

    def __init__(self, gen, val=None, exc=None):
        self.gen, self.val, self.exc, self.done = gen, val, exc, False


class VMethod:
    __slots__ = ("self", "fn")

    def __init__(self, self_, fn):
        self.self, self.fn = self_, fn

    def __repr__(self):
        return f"<meth {self.fn}>"


class BNat:
    __slots__ = ("self", "name")

    def __init__(self, self_, name):
        self.self, self.name = self_, name


class VIter:
    """iterator over a sequence-like thing. seq: tuple | SSeq | VList | str | range; step +1/-1"""

    __slots__ = ("seq", "idx", "step", "done", "sn", "src")

    def __init__(self, seq, idx=0, step=1):
        self.sn = next(SERIAL)
        self.seq, self.idx, self.step, self.done = seq, idx, step, False
        self.src = None    # the dictionary or set iterated over, and its size at the start


class VSlice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step


class VSuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Splat:
    """the rest of an argument list, of symbolic length"""

    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


# ------------------------------------------------------------------ code
class CodeInfo:
    __slots__ = ("co", "ins", "index", "exc", "_live", "fast")

    def __init__(self, co):
        self.co = co
        self.ins = [i for i in dis.get_instructions(co)]
        self.index = {i.offset: n for n, i in enumerate(self.ins)}
        self.exc = dis._parse_exception_table(co)
        self._live = None
        self.fast = set(co.co_varnames) - set(co.co_cellvars) - set(co.co_freevars)

    def live(self, i):
        """fast locals that may still be read from position i (next instruction) or after an exception of the call before it"""
        if self._live is None:
            self._live = self._liveness()
        return self._live[i]

    def _liveness(self):
        ins, n = self.ins, len(self.ins)
        use, dfn, succ = [set() for _ in ins], [set() for _ in ins], [[] for _ in ins]
        for k, x in enumerate(ins):
            op, a = x.opname, x.argval
            if op in ("LOAD_FAST_LOAD_FAST",):
                raise Unsupported(op)
            if op.startswith("LOAD_FAST") or op == "DELETE_FAST":
                use[k].add(a)
                if op == "LOAD_FAST_AND_CLEAR":
                    use[k].add(a)
            elif op.startswith("STORE_FAST"):
                dfn[k].add(a)
            if op not in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT",
                          "INTERPRETER_EXIT") and k + 1 < n:
                succ[k].append(k + 1)
            if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
                t = self.index.get(x.argval)
                if t is not None:
                    succ[k].append(t)
                    if op == "FOR_ITER":
                        succ[k] += [j for j in (t - 1, t + 1) if 0 <= j < n]
                    if op == "SEND":
                        succ[k] += [j for j in (t + 1,) if 0 <= j < n]
        for e in self.exc:
            t = self.index.get(e.target)
            for k, x in enumerate(ins):
                if e.start <= x.offset < e.end:
                    succ[k].append(t)
        hand = [[] for _ in ins]
        for e in self.exc:
            t = self.index.get(e.target)
            for k, x in enumerate(ins):
                if e.start <= x.offset < e.end:
                    hand[k].append(t)
        li = [set() for _ in ins]
        ch = True
        while ch:
            ch = False
            for k in range(n - 1, -1, -1):
                o = set()
                for s in succ[k]:
                    o |= li[s]
                o = use[k] | (o - dfn[k])
                for h in hand[k]:
                    o |= li[h]
                if o != li[k]:
                    li[k] = o
                    ch = True
        return [li[k] | (li[k - 1] if k else set()) for k in range(n)] + [set()]


_CODE = {}


def info(co):
    k = id(co)
    r = _CODE.get(k)
    if r is None:
        r = _CODE[k] = CodeInfo(co)
    return r


SERIAL = itertools.count(1)


class Frame:
    __slots__ = ("ci", "globs", "loc", "stack", "i", "cur_exc", "ret", "gen", "kwnames", "closure", "sn")

    def __init__(self, ci, globs, loc, closure):
        self.sn = next(SERIAL)
        self.ci, self.globs, self.loc, self.closure = ci, globs, loc, closure
        self.stack, self.i, self.cur_exc, self.ret, self.gen, self.kwnames = [], 0, None, ("push",), None, ()

    def __repr__(self):
        return f"<{self.ci.co.co_qualname}@{self.i}>"


ATOMIC = (int, float, complex, str, bytes, bool, type(None), type(...), type(NotImplemented), type, types.FunctionType,
          types.BuiltinFunctionType, types.ModuleType, types.CodeType, Sym, SSeq, AbsFun, _Null, types.MethodType)


class Cloner:
    def __init__(self):
        self.memo = {}

    def __call__(self, v):
        c = v.__class__
        if c in _ATOMIC_SET:
            return v
        k = id(v)
        m = self.memo.get(k)
        if m is not None:
            return m[0]
        if c is tuple:
            r = tuple([self(x) for x in v])
            if all(a is b for a, b in zip(r, v)):
                r = v
            self.memo[k] = (r, v)
            return r
        if c is Obj:
            r = Obj(v.cls)
            r.tagv, r.sn = v.tagv, v.sn
            self.memo[k] = (r, v)
            r.attrs = {n: self(x) for n, x in v.attrs.items()}
            return r
        if c is VList:
            r = VList(None, v.t, v.ty)
            self.memo[k] = (r, v)
            if v.items is not None:
                r.items = [self(x) for x in v.items]
            return r
        if c is VDict or c is VSet:
            r = c()
            self.memo[k] = (r, v)
            r.d = {a: self(b) for a, b in v.d.items()}
            return r
        if c is VCell:
            r = VCell()
            self.memo[k] = (r, v)
            r.v = self(v.v)
            return r
        if c is VFunc:
            r = VFunc(v.code, v.globs)
            self.memo[k] = (r, v)
            r.defaults, r.kwdefaults, r.closure = self(v.defaults), self(v.kwdefaults), self(v.closure)
            r.attrs = {a: self(b) for a, b in v.attrs.items()}
            return r
        if c is VGen:
            r = VGen(None, v.kind)
            self.memo[k] = (r, v)
            r.state = v.state
            r.frame = self(v.frame)
            return r
        if c is Frame:
            r = Frame(v.ci, v.globs, None, None)
            self.memo[k] = (r, v)
            r.loc = {a: self(b) for a, b in v.loc.items()}
            r.closure = self(v.closure)
            r.stack = [self(x) for x in v.stack]
            r.i, r.kwnames, r.sn = v.i, v.kwnames, v.sn
            r.cur_exc, r.ret, r.gen = self(v.cur_exc), self(v.ret), self(v.gen)
            return r
        if c is VMethod:
            r = VMethod(None, v.fn)
            self.memo[k] = (r, v)
            r.self, r.fn = self(v.self), self(v.fn)
            return r
        if c is BNat:
            r = BNat(None, v.name)
            self.memo[k] = (r, v)
            r.self = self(v.self)
            return r
        if c is VIter:
            r = VIter(None)
            self.memo[k] = (r, v)
            r.seq, r.idx, r.step, r.done, r.sn = self(v.seq), v.idx, v.step, v.done, v.sn
            r.src = self(v.src)
            return r
        if c is VSlice:
            r = VSlice(self(v.lo), self(v.hi), self(v.step))
            self.memo[k] = (r, v)
            return r
        if c is VSuper:
            r = VSuper(v.cls, self(v.obj))
            self.memo[k] = (r, v)
            return r
        if c is AGWrap:
            r = AGWrap(self(v.v))
            self.memo[k] = (r, v)
            return r
        if c is VAnext:
            r = VAnext(None)
            self.memo[k] = (r, v)
            r.gen, r.val, r.exc, r.done = self(v.gen), self(v.val), self(v.exc), v.done
            return r
        if c is dict:
            r = {a: self(b) for a, b in v.items()}
            self.memo[k] = (r, v)
            return r
        return v


_ATOMIC_SET = set(ATOMIC)


def is_conc(v):
    """a fully concrete (native) atom"""
    return not isinstance(v, (Sym, SSeq, Obj, VList, VDict, VSet, VCell, VFunc, VGen, VMethod, BNat, VIter, VSlice,
                              VSuper, AbsFun, VAnext, AGWrap)) and not (isinstance(v, tuple) and not all(is_conc(x) for x in v))


def is_num(v):
    return type(v) in (int, bool) or (isinstance(v, Sym) and v.sort in "IB")


def iterm(v):
    """integer term of an int-like value"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Sym):
        if v.sort == "I":
            return v.t
        if v.sort == "B":
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return V.vi(v.t)
    raise Unsupported(f"integer expected, got {v!r}")


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return Sym("I", t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return Sym("B", t)


REPO_PREFIXES = ("expression", "contracts", "pv.prelude", "pv.lang")


def repo_class(c):
    return isinstance(c, type) and (c.__module__ or "").startswith(REPO_PREFIXES)


class Registry:
    """class-level embedding of immutable library objects into V"""

    embed_cls = {}
    by_attrs = set()   # classes whose objects are immutable records
    owner = {}         # code of a nested function -> code of the function that creates it


def embed(v):
    """V term denoting a value; raises Unsupported for values with identity the solver cannot see."""
    if v is None:
        return V.vnone
    if isinstance(v, bool):
        return V.vbool(z3.BoolVal(v))
    if isinstance(v, int):
        return V.vint(z3.IntVal(v))
    if isinstance(v, str):
        return V.vstr(z3.StringVal(v))
    if isinstance(v, Sym):
        if v.sort == "I":
            return V.vint(v.t)
        if v.sort == "B":
            return V.vbool(v.t)
        return v.t
    if isinstance(v, tuple):
        return V.vtup(T.seq_of([embed(x) for x in v]))
    if isinstance(v, SSeq):
        if v.kind == "str":
            return V.vstr(uf("chars", T.Q, z3.StringSort())(v.t))
        return V.vtup(v.t) if v.kind == "tuple" else V.vlist(v.t)
    if isinstance(v, VList):
        return V.vlist(seqterm(v))
    if isinstance(v, Obj):
        if v.cls in Registry.by_attrs:
            ks = sorted(v.attrs)
            return V.vobj(z3.IntVal(T.CLS.of((v.cls, tuple(ks)))), T.seq_of([embed_part(v.attrs[k]) for k in ks]))
        f = find_embed(v.cls)
        if f is not None:
            return f(v)
        raise Unsupported(f"cannot embed {v.cls.__name__}")
    if isinstance(v, VMethod) or isinstance(v, (VFunc, VGen, VCell, BNat, VIter, VDict, VSet, VSuper, VSlice)):
        raise Unsupported(f"cannot embed {type(v).__name__}")
    return T.ATOMS.of(v)


def embed_part(v):
    """like embed, for a component of an object: functions are represented by their code and captured values"""
    if isinstance(v, VFunc):
        t = val_ty(v)
        if t is None:
            raise Unsupported("function with captured state")
        return V.vobj(z3.IntVal(T.CLS.of(t.code)), T.seq_of([embed_part(c.v) for c in v.closure]))
    if isinstance(v, AbsFun):
        return V.vatom(z3.IntVal(T.CLS.of(("fun", v.name))))
    return embed(v)


def constant_cells(code):
    """no variable captured by the function is ever rebound (so that its value is the value at creation)"""
    if code not in _CC:
        import dis
        free = set(code.co_freevars)

        def stores(co, names):
            for i in dis.get_instructions(co):
                if i.opname in ("STORE_DEREF", "DELETE_DEREF") and i.argval in names:
                    return True
            return any(stores(k, names) for k in co.co_consts if hasattr(k, "co_code") and set(k.co_freevars) & names)
        ok, co = not stores(code, free), code
        while ok and free:
            co = Registry.owner.get(co)
            if co is None:
                break
            ok = not stores(co, free)
            free = free & set(co.co_freevars)
        _CC[code] = ok
    return _CC[code]


_CC = {}


class TextTy(Ty):
    """an uninterpreted string"""

    def __init__(self, full):
        self.full = full


FullStr, SomeStr = TextTy(True), TextTy(False)


class ObjTy(Ty):
    def __init__(self, cls, names, ts):
        self.cls, self.names, self.ts = cls, names, ts


class ClosTy(Ty):
    def __init__(self, code, globs, ts):
        self.code, self.globs, self.ts = code, globs, ts


class AbsTy(Ty):
    def __init__(self, fun):
        self.fun = fun


def find_embed(cls):
    for k in cls.__mro__:
        if k in Registry.embed_cls:
            return Registry.embed_cls[k]
        if getattr(k, "__pv_embed__", None) and "__pv_embed__" in k.__dict__:
            return lambda o: V.vobj(z3.IntVal(T.CLS.of(o.cls)), T.seq_of([embed(o.attrs[a]) for a in o.cls.__pv_embed__]))
    if "tag" in getattr(cls, "__match_args__", ()) or is_tagged(cls):
        return embed_tagged
    return None


def is_tagged(cls):
    i = getattr(cls, "__init__", None)
    return getattr(i, "__qualname__", "").startswith("tagged_union.")


def embed_tagged(o):
    tag = o.attrs.get("tag")
    if tag is None or tag not in o.attrs:
        raise Unsupported("partially built tagged union")
    return V.vobj(z3.IntVal(T.CLS.of(o.cls)), T.seq_of([embed(tag), embed(o.attrs[tag])]))


def seqterm(v):
    if isinstance(v, tuple):
        return T.seq_of([embed(x) for x in v])
    if isinstance(v, SSeq):
        return v.t
    if isinstance(v, str):
        return T.seq_of([embed(x) for x in v])
    if isinstance(v, VList):
        return v.t if v.items is None else T.seq_of([embed(x) for x in v.items])
    raise Unsupported(f"sequence expected: {type(v).__name__}")


def seqlen(v):
    if isinstance(v, (tuple, str, range)):
        return len(v)
    if isinstance(v, VList) and v.items is not None:
        return len(v.items)
    return mkint(z3.Length(v.t))


# ------------------------------------------------------------------ element types of sequences
class _Wild(Ty):
    """type of the elements of an empty sequence"""


WILD = _Wild()


def same_ty(a, b):
    if a is b:
        return True
    if a is None or b is None or type(a) is not type(b):
        return False
    da, db = a.__dict__, b.__dict__
    if set(da) != set(db):
        return False
    for k, x in da.items():
        y = db[k]
        if isinstance(x, Ty):
            if not (isinstance(y, Ty) and same_ty(x, y)):
                return False
        elif isinstance(x, tuple) and x and isinstance(x[0], Ty):
            if len(x) != len(y) or not all(same_ty(p, q) for p, q in zip(x, y)):
                return False
        elif x is not y and x != y:
            return False
    return True


def lub(a, b):
    """a type both values have; None when nothing is known"""
    if a is WILD:
        return b
    if b is WILD:
        return a
    if a is None or b is None:
        return None
    if same_ty(a, b):
        return a
    if type(a) is tree.TreeT and type(b) is lang.OptT and b.t is WILD:
        return a
    if type(b) is tree.TreeT and type(a) is lang.OptT and a.t is WILD:
        return b
    if type(a) is not type(b):
        return None
    if type(a) is lang.OptT:
        return lang.OptT(lub(a.t, b.t) or lang.Any)
    if type(a) is lang.ResT:
        return lang.ResT(lub(a.t, b.t) or lang.Any, lub(a.e, b.e) or lang.Any)
    if type(a) is lang.TupT and len(a.ts) == len(b.ts):
        return lang.TupT(*[lub(x, y) or lang.Any for x, y in zip(a.ts, b.ts)])
    if type(a) is ObjTy and a.cls is b.cls and a.names == b.names or type(a) is ClosTy and a.code is b.code and len(a.ts) == len(b.ts):
        ts = [x if x is y else lub(x, y) for x, y in zip(a.ts, b.ts)]
        if any(t is None and not (x is None or x is lang.Any) for t, x in zip(ts, a.ts)):
            ts = [t or lang.Any for t in ts]
        return ObjTy(a.cls, a.names, tuple(ts)) if type(a) is ObjTy else ClosTy(a.code, a.globs, tuple(ts))
    if type(a) is lang.IntT:
        return lang.IntT(None if a.lo is None or b.lo is None else min(a.lo, b.lo),
                         None if a.hi is None or b.hi is None else max(a.hi, b.hi))
    return None


def val_ty(v):
    """a type of a value, for values whose shape the solver term does not show"""
    if isinstance(v, Sym):
        return (v.ty or lang.Int) if v.sort == "I" else lang.Bool if v.sort == "B" else v.ty
    if isinstance(v, bool):
        return lang.Bool
    if isinstance(v, int):
        return lang.Int
    if isinstance(v, tuple):
        return lang.TupT(*[val_ty(x) or lang.Any for x in v])
    if isinstance(v, str) and len(v) == 1:
        return lang.Char
    if isinstance(v, SSeq) and v.kind == "str":
        return lang.Str
    if isinstance(v, SSeq) and v.kind == "tuple":
        return lang.SeqT(v.ty or lang.Any)
    if isinstance(v, VFunc):
        if v.defaults or v.kwdefaults or v.attrs or not constant_cells(v.code):
            return None
        return ClosTy(v.code, v.globs, tuple(val_ty(c.v) or lang.Any for c in v.closure))
    if isinstance(v, AbsFun):
        return AbsTy(v)
    if isinstance(v, Obj) and v.cls in Registry.by_attrs:
        ks = tuple(sorted(v.attrs))
        ts = tuple(val_ty(v.attrs[k]) or (None if isinstance(v.attrs[k], VFunc) else lang.Any) for k in ks)
        return ObjTy(v.cls, ks, ts) if None not in ts else None
    if isinstance(v, Obj) and is_tagged(v.cls):
        n, t = v.cls.__name__, v.attrs.get("tag")
        if n == "Option":
            if t == "some" and isinstance(v.attrs["some"], Obj) and v.attrs["some"].cls is tree.classes()[0]:
                return tree.Tree
            return lang.OptT((val_ty(v.attrs.get("some")) or lang.Any) if t == "some" else WILD)
        if n == "Result":
            w = val_ty(v.attrs.get(t)) or lang.Any
            return lang.ResT(w, WILD) if t == "ok" else lang.ResT(WILD, w)
    return None


def seq_ty(v):
    """element type of a sequence value"""
    if isinstance(v, tuple) or isinstance(v, VList) and v.items is not None:
        r = WILD
        for x in (v if isinstance(v, tuple) else v.items):
            r = lub(r, val_ty(x))
            if r is None:
                break
        return r
    return v.ty


_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def mk_exc(cls, *args):
    o = Obj(cls, {"args": tuple(args)})
    if issubclass(cls, StopIteration):
        o.attrs["value"] = args[0] if args else None
    return o


def lookup_cls(cls, name):
    for k in cls.__mro__:
        d = k.__dict__
        if name in d:
            return d[name], k
    return None, None


class Machine:
    """One sequential program under symbolic execution."""

    def __init__(self, st, label):
        self.st, self.label = st, label
        self.frames = []
        self.status = "run"  # run | event | done
        self.event = None
        self.event_ret = None
        self.result = None
        self.exc = None
        self.lifted = {}
        self.steps = 0
        self.last_back = None
        self.par = None

    def clone(self, st, cl):
        m = Machine(st, self.label)
        m.frames = [cl(f) for f in self.frames]
        m.status = self.status
        m.event = cl(self.event)
        m.event_ret = cl(self.event_ret)
        m.result, m.exc = cl(self.result), cl(self.exc)
        m.lifted = {k: (cl(a), b) for k, (a, b) in self.lifted.items()}
        m.steps = self.steps
        if self.par is not None:
            m.par = self.par.clone(cl)
            m.par.frames[m.par.cur] = m.frames
        return m

    # -------------------------------------------------------------- lifting of native objects
    def lift(self, v):
        c = v.__class__
        if c in _ATOMIC_SET or isinstance(v, (Obj, VList, VDict, VSet, VFunc, VGen, VMethod, BNat, VIter, VCell, Ty)):
            return v
        if c is tuple:
            if all(x.__class__ in _ATOMIC_SET for x in v):
                return v
            return tuple(self.lift(x) for x in v)
        k = id(v)
        if k in self.lifted:
            return self.lifted[k][0]
        if c is list:
            r = VList([])
            self.lifted[k] = (r, v)
            r.items = [self.lift(x) for x in v]
            return r
        if c is dict:
            r = VDict()
            self.lifted[k] = (r, v)
            r.d = {a: self.lift(b) for a, b in v.items()}
            return r
        if c in (set, frozenset):
            r = VSet({a: a for a in v})
            self.lifted[k] = (r, v)
            return r
        if c is types.CellType:
            r = VCell()
            self.lifted[k] = (r, v)
            try:
                r.v = self.lift(v.cell_contents)
            except ValueError:
                pass
            return r
        if repo_class(c) and not isinstance(v, type) and not _is_enum(c):
            r = Obj(c)
            self.lifted[k] = (r, v)
            attrs = {}
            for kl in c.__mro__:
                sl = kl.__dict__.get("__slots__", ())
                for s in (sl,) if isinstance(sl, str) else sl:
                    if s.startswith("__") and not s.endswith("__"):
                        s = f"_{kl.__name__.lstrip('_')}{s}"
                    if s not in ("__dict__", "__weakref__") and hasattr(v, s):
                        attrs[s] = getattr(v, s)
            attrs.update(getattr(v, "__dict__", {}))
            r.attrs = {a: self.lift(b) for a, b in attrs.items()}
            return r
        return v

    # -------------------------------------------------------------- running
    def start(self, fn, args):
        self.call(fn, tuple(args), {}, ("top",))

    def top(self):
        return self.frames[-1]

    def push(self, v):
        self.frames[-1].stack.append(v)

    def step(self):
        f = self.frames[-1]
        save_i, save_stack, save_kw, nfr = f.i, list(f.stack), f.kwnames, len(self.frames)
        ins = f.ci.ins[f.i]
        if self.par is not None and threads.schedule(self, f, ins):
            return
        f.i += 1
        self.steps += 1
        try:
            h = OPS.get(ins.opname)
            if h is None:
                raise Unsupported(f"opcode {ins.opname}")
            try:
                h(self, f, ins)
            except Tail as t:
                self.call(t.fn, t.args, t.kw, t.ret or ("push",))
        except Fork:
            assert len(self.frames) == nfr, "fork after a frame change"
            f.i, f.stack, f.kwnames = save_i, save_stack, save_kw
            if self.par is not None:
                self.par.fresh = True
            raise
        except PyExc as e:
            self.unwind(e.obj)
        except threads.Block:
            f.i, f.stack, f.kwnames = save_i, save_stack, save_kw
            try:
                threads.block(self)
            except PyExc as e:
                f.i += 1
                self.unwind(e.obj)

    # -------------------------------------------------------------- calls
    def call(self, fn, args, kw, ret=("push",)):
        st = self.st
        while True:
            c = fn.__class__
            if c is VMethod:
                args = (fn.self,) + args
                fn = fn.fn
                continue
            if c is types.MethodType:
                args = (self.lift(fn.__self__),) + args
                fn = fn.__func__
                continue
            break
        try:
            if c is VFunc:
                s = st.rec_summary(self, fn.code)
                return self.push_frame(fn if s is None else s, args, kw, ret)
            if c is types.FunctionType:
                sp = natives.SPECIAL.get(fn)
                if sp is not None:
                    return sp(self, fn, args, kw, ret)
                h = NATIVES.get(fn)
                if h is not None:
                    return self.deliver(ret, h(self, args, kw))
                s = st.summary(fn) or st.rec_summary(self, fn.__code__)
                if s is not None:
                    if not getattr(s, "pv_raw", False):
                        # the callee's contract, as a ghost program, stands for the callee
                        return self.push_frame(s, args, kw, ret)
                    r = s(self, fn, args, kw, ret)
                    if r is not NotImplemented:
                        return r
                return self.push_frame(fn, args, kw, ret)
            if args and isinstance(args[-1], Splat) and (c is AbsFun or c is Sym and fn.ty is not None and st.is_fun(fn.ty)):
                sq = args[-1].seq
                args = sq if len(args) == 1 else SSeq(z3.simplify(z3.Concat(seqterm(args[:-1]), sq.t)), "tuple")
            if c is AbsFun:
                self.status, self.event, self.event_ret = "event", (fn.name, args, tuple(sorted(kw.items())), fn.ty), ret
                return
            if c is Sym and fn.ty is not None and st.is_fun(fn.ty):
                args = (Sym("V", fn.t),) + args if isinstance(args, tuple) else SSeq(z3.Concat(z3.Unit(fn.t), args.t), "tuple")
                self.status, self.event, self.event_ret = "event", ("call", args, tuple(sorted(kw.items())), fn.ty), ret
                return
            if isinstance(args, tuple) and args and isinstance(args[-1], Splat) and c is not type:
                n = st.concretize_len(args[-1].seq)
                sq = args[-1].seq
                args = args[:-1] + tuple(self.elem(sq.t[k], sq.ty) for k in range(n))
            if c is BNat:
                return self.deliver(ret, self.call_method(fn.self, fn.name, args, kw))
            if isinstance(fn, type):
                return self.instantiate(fn, args, kw, ret)
            if c is Obj:
                m, _ = lookup_cls(fn.cls, "__call__")
                if m is None:
                    raise PyExc(mk_exc(TypeError, f"'{fn.cls.__name__}' object is not callable"))
                return self.call(m, (fn,) + args, kw, ret)
            try:
                h = NATIVES.get(fn)
            except TypeError:
                h = None
            if h is not None:
                return self.deliver(ret, h(self, args, kw))
            if hasattr(fn, "__origin__") and isinstance(getattr(fn, "__origin__"), type):
                return self.call(fn.__origin__, args, kw, ret)
            if isinstance(fn, (types.BuiltinFunctionType, types.MethodWrapperType, types.MethodDescriptorType,
                               types.WrapperDescriptorType, types.ClassMethodDescriptorType)):
                return self.call_builtin(fn, args, kw, ret)
            if repo_class(c):
                return self.call(self.lift(fn), args, kw, ret)
            if c is Sym or fn is None or isinstance(fn, (int, str, tuple, SSeq)):
                if c is Sym:
                    raise Unsupported("call of an opaque value")
                raise PyExc(mk_exc(TypeError, "not callable"))
            raise Unsupported(f"call of {fn!r}")
        except Tail as t:
            return self.call(t.fn, t.args, t.kw, t.ret or ret)
        except PyExc as e:
            if ret[0] == "top":
                self.status, self.exc = "done", e.obj
                return
            if ret[0] == "thread":
                return threads.finish(self, ("exc", e.obj))
            if self.handled(ret, e.obj):
                return
            raise

    def call_builtin(self, fn, args, kw, ret):
        name = getattr(fn, "__name__", "")
        slf = getattr(fn, "__self__", None)
        # unbound wrapper descriptors such as object.__setattr__, dict.get, Exception.__init__
        oc = getattr(fn, "__objclass__", None)
        if oc is not None and args:
            if oc is object and name == "__setattr__" and isinstance(args[0], Obj):
                args[0].attrs[args[1]] = args[2]
                return self.deliver(ret, None)
            if oc is object and name == "__delattr__" and isinstance(args[0], Obj):
                if args[1] not in args[0].attrs:
                    raise PyExc(mk_exc(AttributeError, args[1]))
                del args[0].attrs[args[1]]
                return self.deliver(ret, None)
            if name == "__getattribute__":
                return self.deliver(ret, self.getattr(args[0], args[1]))
            if name == "__init__" and isinstance(args[0], Obj):
                if issubclass(args[0].cls, BaseException):
                    self.exc_init(args[0], args[1:])
                return self.deliver(ret, None)
            if oc is object and name in ("__eq__", "__ne__") and isinstance(args[0], Obj):
                same = args[0] is args[1]
                if name == "__eq__":
                    return self.deliver(ret, True if same else NotImplemented)
                return self.deliver(ret, False if same else NotImplemented)
            if oc is object and name == "__hash__":
                return self.deliver(ret, Sym("I", z3.Int(f"idhash!{id(args[0])}")))
            if oc is object and name in ("__repr__", "__str__") and isinstance(args[0], Obj):
                return self.deliver(ret, self.opaque_str("repr", args))
            if isinstance(args[0], (VList, VDict, VSet, tuple, SSeq, str, Sym)):
                return self.deliver(ret, self.call_method(args[0], name, args[1:], kw))
        if slf is not None and not isinstance(slf, types.ModuleType):
            if isinstance(slf, type) and name == "__new__":
                cls = args[0] if args else slf
                return self.deliver(ret, Obj(cls))
            if all(is_conc(a) for a in args) and all(is_conc(a) for a in kw.values()) and isinstance(
                    slf, (int, str, bytes, float, tuple, type)):
                return self.deliver(ret, self.native(fn, args, kw))
            l = self.lift(slf)
            if l is not slf or isinstance(slf, (tuple, str)):
                return self.deliver(ret, self.call_method(l, name, args, kw))
        if fn in PURE and all(is_conc(a) for a in args) and all(is_conc(a) for a in kw.values()):
            return self.deliver(ret, self.native(fn, args, kw))
        raise Unsupported(f"builtin {fn!r}")

    def native(self, fn, args, kw):
        try:
            return self.lift(fn(*args, **kw))
        except (Unsupported, Fork, PyExc, Tail):
            raise
        except Exception as e:
            raise PyExc(self.exc_obj(e))

    def exc_obj(self, e):
        return mk_exc(type(e), *[a for a in e.args if is_conc(a)])

    def exc_init(self, o, args):
        o.attrs["args"] = tuple(args)
        if issubclass(o.cls, StopIteration):
            o.attrs["value"] = args[0] if args else None

    def instantiate(self, cls, args, kw, ret):
        h = NATIVES.get(cls)
        if h is not None:
            return self.deliver(ret, h(self, args, kw))
        if issubclass(cls, Ty):
            return self.deliver(ret, cls(*args, **kw))
        if issubclass(cls, BaseException) or repo_class(cls) or cls in ALLOW_CLASSES:
            nw, owner = lookup_cls(cls, "__new__")
            if nw is not None and isinstance(nw, staticmethod):
                nw = nw.__func__
            if isinstance(nw, types.FunctionType):
                raise Unsupported(f"__new__ of {cls}")
            if inspect.isabstract(cls):
                raise PyExc(mk_exc(TypeError, f"Can't instantiate abstract class {cls.__name__}"))
            if issubclass(cls, (list, dict, tuple, int, str, set)) and not _is_enum(cls):
                raise Unsupported(f"subclass of a builtin container: {cls}")
            o = Obj(cls)
            if issubclass(cls, BaseException):
                self.exc_init(o, args)
            init, owner = lookup_cls(cls, "__init__")
            if isinstance(init, types.FunctionType):
                if init.__module__ == "typing":
                    return self.deliver(ret, o)
                return self.call(init, (o,) + args, kw, ("init", o, ret))
            if (args or kw) and not issubclass(cls, BaseException):
                raise PyExc(mk_exc(TypeError, f"{cls.__name__}() takes no arguments"))
            return self.deliver(ret, o)
        if all(is_conc(a) for a in args) and all(is_conc(a) for a in kw.values()):
            r = self.native(cls, args, kw)
            return self.deliver(ret, r)
        raise Unsupported(f"instantiate {cls}")

    def bind(self, code, name, defaults, kwdefaults, args, kw):
        loc = {}
        splat = None
        if args and isinstance(args[-1], Splat):
            splat = args[-1].seq
            args = args[:-1]
            while len(args) < code.co_argcount or (not code.co_flags & 4):
                # take elements of the symbolic rest one by one for the positional parameters
                if not self.decide(mkbool(z3.Length(splat.t) > 0)):
                    splat = None
                    break
                if len(args) >= code.co_argcount:
                    raise PyExc(mk_exc(TypeError, f"{name}() takes {code.co_argcount} positional arguments"))
                args = args + (self.elem(splat.t[0], splat.ty),)
                splat = SSeq(z3.simplify(z3.SubSeq(splat.t, 1, z3.Length(splat.t) - 1)), "tuple", splat.ty)
        n, npos, nkw = code.co_argcount, code.co_posonlyargcount, code.co_kwonlyargcount
        names = code.co_varnames
        flags = code.co_flags
        defaults = defaults or ()
        for k, a in zip(names[:n], args):
            loc[k] = a
        extra = args[n:]
        pos = n + nkw
        if flags & 4:
            loc[names[pos]] = tuple(extra)
            if splat is not None:
                loc[names[pos]] = splat if not extra else SSeq(z3.simplify(z3.Concat(seqterm(tuple(extra)), splat.t)), "tuple", splat.ty)
            pos += 1
        elif extra:
            raise PyExc(mk_exc(TypeError, f"{name}() takes {n} positional arguments but {len(args)} were given"))
        rest = {}
        for k, v in kw.items():
            if k in names[npos:n + nkw]:
                if k in loc:
                    raise PyExc(mk_exc(TypeError, f"{name}() got multiple values for argument '{k}'"))
                loc[k] = v
            elif flags & 8:
                rest[k] = v
            else:
                raise PyExc(mk_exc(TypeError, f"{name}() got an unexpected keyword argument '{k}'"))
        if flags & 8:
            loc[names[pos]] = VDict(rest)
        d0 = n - len(defaults)
        for j in range(n):
            if names[j] not in loc:
                if j >= d0:
                    loc[names[j]] = defaults[j - d0]
                else:
                    raise PyExc(mk_exc(TypeError, f"{name}() missing required positional argument '{names[j]}'"))
        for j in range(n, n + nkw):
            if names[j] not in loc:
                if kwdefaults and names[j] in kwdefaults:
                    loc[names[j]] = kwdefaults[names[j]]
                else:
                    raise PyExc(mk_exc(TypeError, f"{name}() missing keyword-only argument '{names[j]}'"))
        return loc

    def push_frame(self, fn, args, kw, ret):
        if isinstance(fn, VFunc):
            code, globs, defaults, kwd, closure = fn.code, fn.globs, fn.defaults, fn.kwdefaults, fn.closure
        else:
            code, globs = fn.__code__, fn.__globals__
            defaults = tuple(self.lift(x) for x in fn.__defaults__ or ())
            kwd = {k: self.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
            closure = tuple(self.lift(c) for c in fn.__closure__ or ())
        loc = self.bind(code, code.co_name, defaults, kwd, args, kw)
        if len(self.frames) > self.st.max_depth:
            raise Unsupported("call depth budget")
        self.st.note_function(code)
        f = Frame(info(code), globs, loc, closure)
        f.ret = ret
        self.frames.append(f)

    # -------------------------------------------------------------- returning and raising
    def deliver(self, ret, v):
        k = ret[0]
        if k == "push":
            self.frames[-1].stack.append(v)
        elif k == "top":
            self.status, self.result = "done", v
        elif k == "thread":
            threads.finish(self, ("ret", v))
        elif k == "init":
            return self.deliver(ret[2], ret[1])
        elif k == "drop":
            pass
        elif k == "not":
            b = self.truth(v)
            self.frames[-1].stack.append(not b if isinstance(b, bool) else mkbool(z3.Not(b.t)))
        elif k == "bool":
            b = self.truth(v)
            self.frames[-1].stack.append(b)
        elif k in ("for_next", "push_default"):
            self.frames[-1].stack.append(v)
        elif k == "send_next":
            self.frames[-1].stack.append(v)
        elif k == "getattr_default":
            self.frames[-1].stack.append(v)
        elif k == "hasattr":
            self.frames[-1].stack.append(True)
        elif k == "raise":
            self.unwind(v)
        elif k == "const":
            self.frames[-1].stack.append(ret[1])
        elif k == "retry":  # replace TOS by the result and re-execute the instruction
            fr = self.frames[-1]
            fr.stack[-1] = v
        elif k == "retry2":  # replace the two operands by the result
            fr = self.frames[-1]
            fr.stack.pop()
            fr.stack[-1] = v
        else:
            raise Unsupported(f"deliver {k}")

    def handled(self, ret, exc):
        """exception translation at a call boundary; True if consumed"""
        k = ret[0]
        if k == "init":
            return self.handled(ret[2], exc)
        if k == "for_next" and issubclass(exc.cls, StopIteration):
            fr = self.frames[-1]
            fr.stack.pop()
            fr.i = ret[1]
            return True
        if k == "send_next" and issubclass(exc.cls, StopIteration):
            fr = self.frames[-1]
            fr.stack.append(exc.attrs.get("value"))
            fr.i = ret[1]
            return True
        if k == "push_default" and issubclass(exc.cls, StopIteration):
            self.frames[-1].stack.append(ret[1])
            return True
        if k == "getattr_default" and issubclass(exc.cls, AttributeError):
            self.frames[-1].stack.append(ret[1])
            return True
        if k == "hasattr" and issubclass(exc.cls, AttributeError):
            self.frames[-1].stack.append(False)
            return True
        if k == "anext_gen":
            pass
        return False

    def unwind(self, exc):
        if not isinstance(exc, Obj):
            raise Unsupported("raise of a non-exception")
        while True:
            f = self.frames[-1]
            off = f.ci.ins[f.i - 1].offset if f.i > 0 else 0
            ent = None
            for e in f.ci.exc:
                if e.start <= off < e.end:
                    ent = e
            if ent is not None:
                del f.stack[ent.depth:]
                if ent.lasti:
                    f.stack.append(off)
                f.stack.append(exc)
                f.i = f.ci.index[ent.target]
                return
            self.frames.pop()
            ret = f.ret
            if f.gen is not None:
                f.gen.state = "done"
                f.gen.frame = None
                if ret[0] == "gen":
                    ret = ret[2]
                    if ret[0] == "agen":
                        ret[1].done = True
                        ret = ret[2]
            if ret[0] == "thread":
                threads.finish(self, ("exc", exc))
                return
            if ret[0] == "top" or not self.frames:
                if ret[0] != "top":
                    pass
                self.status, self.exc = "done", exc
                return
            if self.handled(ret, exc):
                return

    def raise_at_boundary(self, ret, exc):
        """a callee without frame (native/event) raises exc"""
        if ret[0] == "top":
            self.status, self.exc = "done", exc
            return
        if ret[0] == "thread":
            return threads.finish(self, ("exc", exc))
        if self.handled(ret, exc):
            return
        self.unwind(exc)

    def respond(self, v):
        ret = self.event_ret
        self.status, self.event, self.event_ret = "run", None, None
        self.deliver(ret, v)

    def respond_raise(self, exc):
        ret = self.event_ret
        self.status, self.event, self.event_ret = "run", None, None
        self.raise_at_boundary(ret, exc)

    def return_value(self, f, v):
        self.frames.pop()
        ret = f.ret
        if f.gen is not None:
            g = f.gen
            g.state, g.frame = "done", None
            assert ret[0] == "gen"
            return self.gen_result(ret, ("return", v))
        self.deliver(ret, v)

    # -------------------------------------------------------------- generators
    def resume(self, gen, val, mode, exc=None):
        """mode: 'next' (native next/send: StopIteration on return), ('for', target), ('send', target), ('agen', anext, ret)"""
        if gen.state == "run":
            raise PyExc(mk_exc(ValueError, "generator already executing"))
        if gen.state == "done":
            if exc is not None:
                return self.raise_at_boundary(self._mode_ret(mode), exc)
            return self.gen_result(("gen", gen, mode), ("return", None), finished=True)
        new = gen.state == "new"
        if new and exc is None and not (val is None):
            raise PyExc(mk_exc(TypeError, "can't send non-None value to a just-started generator"))
        f = gen.frame
        f.ret = ("gen", gen, mode)
        gen.state = "run"
        if len(self.frames) > self.st.max_depth:
            raise Unsupported("call depth budget")
        self.frames.append(f)
        if exc is None:
            f.stack.append(val)
            return
        if new:
            self.frames.pop()
            gen.state, gen.frame = "done", None
            return self.raise_at_boundary(self._mode_ret(mode), exc)
        # throw: delegate to the sub-iterator of a yield-from
        nxt = f.ci.ins[f.i]
        if nxt.opname == "RESUME" and nxt.arg & 3 >= 2:
            sub = f.stack[-1]
            send_i = self._send_index(f)
            target = f.ci.index[f.ci.ins[send_i].argval]
            if isinstance(sub, VGen) and not issubclass(exc.cls, GeneratorExit):
                f.i = send_i + 1
                return self.resume(sub, None, ("send", target), exc)
            if isinstance(sub, VGen):
                # close the sub-generator, then raise GeneratorExit here
                if sub.state == "susp":
                    f.i = send_i + 1
                    return self.resume(sub, None, ("send", target), exc)
            if isinstance(sub, VAnext):
                f.i = send_i + 1
                return self.anext_step(sub, None, ("send", target), exc)
            if isinstance(sub, Obj) and lookup_cls(sub.cls, "throw")[0] is not None:
                f.i = send_i + 1
                m = lookup_cls(sub.cls, "throw")[0]
                return self.call(m, (sub, exc), {}, ("send_next", target))
        f.stack.append(None)  # the slot the sent value would take
        self.unwind(exc)

    def _send_index(self, f):
        j = f.i
        while f.ci.ins[j].opname != "SEND":
            j -= 1
            if j < 0:
                raise Unsupported("yield from without SEND")
        return j

    def _mode_ret(self, mode):
        if mode == "next":
            return ("push",)
        if mode[0] == "next_to":
            return mode[1]
        if mode[0] == "for":
            return ("for_next", mode[1])
        if mode[0] == "send":
            return ("send_next", mode[1])
        if mode[0] == "agen":
            return mode[2]
        raise Unsupported(str(mode))

    def gen_result(self, ret, what, finished=False):
        _, gen, mode = ret
        kind, v = what
        if mode == "next" or mode[0] == "next_to":
            r = ("push",) if mode == "next" else mode[1]
            if kind == "yield":
                return self.deliver(r, v)
            if finished and gen.kind == "coro":
                return self.raise_at_boundary(r, mk_exc(RuntimeError, "cannot reuse already awaited coroutine"))
            e = mk_exc(StopIteration) if v is None else mk_exc(StopIteration, v)
            return self.raise_at_boundary(r, e)
        if mode[0] == "for":
            fr = self.frames[-1]
            if kind == "yield":
                fr.stack.append(v)
            else:
                fr.stack.pop()
                fr.i = mode[1]
            return
        if mode[0] == "send":
            fr = self.frames[-1]
            if finished and gen.kind == "coro":
                return self.unwind(mk_exc(RuntimeError, "cannot reuse already awaited coroutine"))
            fr.stack.append(v)
            if kind != "yield":
                fr.i = mode[1]
            return
        if mode[0] == "agen":
            an, r = mode[1], mode[2]
            # async generator step: completion is signalled as StopIteration(value) / StopAsyncIteration
            if kind == "yield" and isinstance(v, AGWrap):
                an.done = True
                e = mk_exc(StopIteration, v.v)
                return self.raise_at_boundary(r, e)
            if kind == "yield":
                return self.deliver(r, v)
            an.done = True
            return self.raise_at_boundary(r, mk_exc(StopAsyncIteration))
        raise Unsupported(str(mode))

    def anext_step(self, an, val, mode, exc=None):
        ret = self._mode_ret(mode)
        if an.done:
            return self.raise_at_boundary(ret, mk_exc(RuntimeError, "cannot reuse already awaited __anext__()/asend()"))
        if exc is None:
            exc, an.exc = an.exc, None
        send = an.val if an.gen.state != "new" else None
        v = val if val is not None else send
        an.val = None
        if an.gen.state == "done":
            an.done = True
            return self.raise_at_boundary(ret, exc if exc is not None and not issubclass(exc.cls, GeneratorExit) else mk_exc(StopAsyncIteration))
        return self.resume(an.gen, v, ("agen", an, ret), exc)

    def yield_value(self, f, v):
        g = f.gen
        self.frames.pop()
        g.state = "susp"
        ret = f.ret
        f.ret = ("push",)
        self.gen_result(ret, ("yield", v))

    # -------------------------------------------------------------- truth, comparison
    def truth(self, v):
        """bool or Sym B; raises Tail for objects with __bool__/__len__"""
        if v is True or v is False:
            return v
        if isinstance(v, Sym):
            if v.sort == "B":
                return v
            if v.sort == "I":
                return mkbool(v.t != 0)
            if v.ty is FullStr:
                return True
            if isinstance(v.ty, tree.TreeT):
                return self.truth(self.force(v))
            return mkbool(T.v_truth(v.t))
        if isinstance(v, (SSeq,)) or (isinstance(v, VList) and v.items is None):
            return mkbool(z3.Length(v.t) > 0)
        if isinstance(v, VList):
            return len(v.items) > 0
        if isinstance(v, (VDict, VSet)):
            return len(v.d) > 0
        if isinstance(v, Obj):
            m, _ = lookup_cls(v.cls, "__bool__")
            if m is not None:
                raise Tail(m, (v,))
            m, _ = lookup_cls(v.cls, "__len__")
            if m is not None:
                raise Tail(m, (v,))
            return True
        if isinstance(v, (VFunc, VGen, VMethod, BNat, AbsFun, VIter, VCell)):
            return True
        if isinstance(v, tuple):
            return len(v) > 0
        return bool(v)

    def decide(self, b):
        """concrete truth of a bool/Sym B on this path (may Fork)"""
        if b is True or b is False:
            return b
        return self.st.decide(b.t if isinstance(b, Sym) else b)

    def typeof(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Sym):
            if v.ty.__class__ in (lang.CharT, TextTy):
                return str
            return {"I": int, "B": bool}.get(v.sort)
        if isinstance(v, SSeq):
            return {"tuple": tuple, "list": list, "str": str}.get(v.kind)
        return {VList: list, VDict: dict, VSet: set, VFunc: types.FunctionType, VMethod: types.MethodType,
                BNat: types.BuiltinFunctionType, AbsFun: types.FunctionType, VSlice: slice}.get(type(v)) or (
            {"gen": types.GeneratorType, "coro": types.CoroutineType, "agen": types.AsyncGeneratorType}[v.kind]
            if isinstance(v, VGen) else (type(iter(())) if isinstance(v, VIter) else type(v)))

    def isinst(self, v, c):
        if isinstance(c, tuple):
            r = False
            for x in c:
                b = self.isinst(v, x)
                if b is True:
                    return True
                if b is not False:
                    r = b if r is False else mkbool(z3.Or(r.t, b.t))
            return r
        if isinstance(c, types.UnionType):
            return self.isinst(v, c.__args__)
        v = self.force(v)
        if isinstance(v, Obj) and v.cls is lang.UserError and isinstance(c, type) and issubclass(c, BaseException):
            from . import ops
            return ops.exc_match(self, v, c)
        t = self.typeof(v)
        if t is None:  # opaque value
            if c is object:
                return True
            if c is int:
                return mkbool(z3.Or(V.is_vint(v.t), V.is_vbool(v.t)))
            if c is bool:
                return mkbool(V.is_vbool(v.t))
            if c is str:
                return mkbool(V.is_vstr(v.t))
            if c is tuple:
                return mkbool(V.is_vtup(v.t))
            if c is type(None):
                return mkbool(v.t == V.vnone)
            if c is list:
                return mkbool(V.is_vlist(v.t))
            if repo_class(c) or c in OPAQUE_NEVER:
                self.st.assume_note("opaque user values are not instances of library classes, generators or exceptions")
                return False
            return Sym("B", uf(f"isinst_{getattr(c, '__qualname__', c)}", T.V, T.B)(v.t))
        if hasattr(c, "__origin__") and not isinstance(c, type):
            c = c.__origin__
        t = CLASS_ALIAS.get(t, t)
        try:
            return issubclass(t, c)
        except TypeError:
            if getattr(c, "_is_protocol", False):
                from typing import get_protocol_members  # 3.13+
            raise Unsupported(f"isinstance {c}")

    def force(self, v):
        """turn a typed opaque value into a library object (may fork on its case)"""
        if isinstance(v, Sym) and v.ty is not None and v.sort == "V":
            return self.st.force(self, v)
        return v

    def mkiter(self, seq, idx=0, step=1):
        if isinstance(seq, SSeq) and seq.t.num_args():
            seq = SSeq(self.st.name_seq(seq.t), seq.kind, seq.ty)
        return VIter(seq, idx, step)

    def elem(self, t, ty):
        """VM value of a V-sorted element term"""
        e = self.st.name_elem(t)
        if ty.__class__ is tree.TreeT and self.st.ex.rec:
            trees.head_unfold(self.st, t, e)
        return self.st.unembed(self, e, ty)

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, Obj):
            d, owner = lookup_cls(o.cls, name)
            if isinstance(d, property):
                raise Tail(d.fget, (o,))
            if name in o.attrs:
                return o.attrs[name]
            if d is not None or owner is not None:
                if isinstance(d, types.FunctionType):
                    return VMethod(o, d)
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, classmethod):
                    return VMethod(o.cls, d.__func__)
                if isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                    if name == "__class__":
                        return o.cls
                    if name == "__dict__":
                        return VDict(dict(o.attrs))
                    if issubclass(o.cls, BaseException) and name in ("__cause__", "__context__", "__traceback__"):
                        n = o.attrs.get("n")
                        if name != "__traceback__" and o.cls is lang.UserError and isinstance(n, Sym) and \
                                self.decide(mkbool(uf("has" + name, T.V, T.B)(n.t))):
                            k = Sym("V", uf(name, T.V, T.V)(n.t))  # the exception was raised from another one
                            o.attrs[name] = Obj(lang.UserError, {"args": (k,), "n": k})
                            return o.attrs[name]
                        return None
                    if not (issubclass(o.cls, StopIteration) and name == "value"):
                        raise PyExc(mk_exc(AttributeError, name))
                if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                    if owner is object or issubclass(o.cls, BaseException):
                        if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__init__", "__setattr__", "__delattr__",
                                    "with_traceback", "__getattribute__"):
                            return VMethod(o, d)
                    raise Unsupported(f"attribute {name} of {o.cls.__name__}")
                if type(d).__name__ == "cached_property":
                    raise Unsupported("cached_property")
                return self.lift(d)
            g, _ = lookup_cls(o.cls, "__getattr__")
            if g is not None:
                raise Tail(g, (o, name))
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return VDict(dict(o.attrs))
            raise PyExc(mk_exc(AttributeError, f"'{o.cls.__name__}' object has no attribute '{name}'"))
        if isinstance(o, VSuper):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).__mro__
            for k in mro[mro.index(o.cls) + 1:]:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return VMethod(o.obj, d)
                    if isinstance(d, classmethod):
                        return VMethod(o.obj.cls if isinstance(o.obj, Obj) else o.obj, d.__func__)
                    if isinstance(d, staticmethod):
                        return d.__func__
                    if isinstance(d, property):
                        raise Tail(d.fget, (o.obj,))
                    return VMethod(o.obj, d)
            raise PyExc(mk_exc(AttributeError, name))
        if isinstance(o, VFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.code.co_name
            if name == "__qualname__":
                return o.code.co_qualname
            if name == "__code__":
                return o.code
            if name == "__doc__":
                return None
            if name == "__module__":
                return o.globs.get("__name__")
            if name == "__wrapped__":
                raise PyExc(mk_exc(AttributeError, name))
            if name == "__call__":
                return o
            if name == "__dict__":
                return VDict(dict(o.attrs))
            if name == "__defaults__":
                return o.defaults or None
            raise PyExc(mk_exc(AttributeError, name))
        if isinstance(o, VMethod):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        if isinstance(o, AbsFun):
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__call__":
                return o
            raise PyExc(mk_exc(AttributeError, name))
        if isinstance(o, VSlice):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        if isinstance(o, VGen) and name == "gi_frame":
            return None if o.state == "done" else o
        t = self.typeof(o)
        if isinstance(o, (VList, VDict, VSet, VGen, VIter, SSeq, Sym, VAnext)) or isinstance(o, (tuple, str)):
            if t is None:
                if name == "__class__":
                    raise Unsupported("class of an opaque value")
                if name == "dispose":
                    return BNat(o, name)
                if name in ("model_dump", "dict"):
                    self.st.assume_note("opaque payloads have no model_dump/dict hook (payloads with one are covered by separate contracts)")
                    raise PyExc(mk_exc(AttributeError, name))
                raise Unsupported(f"attribute {name} of an opaque value")
            if name == "__class__":
                return t
            if not hasattr(t, name):
                raise PyExc(mk_exc(AttributeError, f"{t.__name__} has no attribute {name}"))
            return BNat(o, name)
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            r = self.native(getattr, (o, name), {})
            return r
        l = self.lift(o)
        if l is not o:
            return self.getattr(l, name)
        return self.native(getattr, (o, name), {})

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            m, owner = lookup_cls(o.cls, "__setattr__")
            if isinstance(m, types.FunctionType):
                raise Tail(m, (o, name, v), ret=("drop",))
            d, _ = lookup_cls(o.cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyExc(mk_exc(AttributeError, f"property '{name}' has no setter"))
                raise Tail(d.fset, (o, v), ret=("drop",))
            o.attrs[name] = v
            return
        if isinstance(o, VFunc):
            o.attrs[name] = v
            return
        if is_conc(o):
            l = self.lift(o)
            if l is not o:
                return self.setattr(l, name, v)
        raise Unsupported(f"setattr on {type(o).__name__}")

    def opaque_str(self, what, args):
        """an uninterpreted string depending on the arguments"""
        ts = []
        for a in args:
            try:
                ts.append(embed(a))
            except Unsupported:
                ts.append(V.vnone)
        f = uf(f"str_{what}_{len(ts)}", *([T.V] * len(ts)), T.V)
        t = f(*ts) if ts else f()
        return Sym("V", t, FullStr if what == "cat" and any(isinstance(a, str) and a for a in args) else SomeStr)

    def call_method(self, o, name, args, kw):
        from . import natives
        return natives.call_method(self, o, name, args, kw)


def _is_enum(c):
    import enum
    return issubclass(c, enum.Enum)


NATIVES = {}
CLASS_ALIAS = {}  # prelude model class -> the builtin class it stands for
PURE = set()
ALLOW_CLASSES = set()
OPS = {}
OPAQUE_NEVER = {types.GeneratorType, types.CoroutineType, types.AsyncGeneratorType}

from . import ops  # noqa: E402,F401
from . import natives  # noqa: E402,F401
from . import trees  # noqa: E402,F401
from . import threads  # noqa: E402,F401

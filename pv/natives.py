"""Assumed contracts of Python builtins and library functions (the trusted base)."""
from __future__ import annotations

import array
import asyncio
import builtins
import collections
import collections.abc
import copy
import dataclasses
import functools
import inspect
import itertools
import operator
import queue
import threading
import types
import typing

import z3

from . import lang, prelude
from . import terms as T
from . import vm as M
from .ops import (binop, compare, equal, get_iter, getslice, has_obj, hkey, identical, iter_next, norm_index, subscr)
from .terms import V
from .vm import (ALLOW_CLASSES, AbsFun, BNat, Dead, Fork, NATIVES, Obj, PURE, PyExc, SSeq, Sym, Tail, Unsupported, VAnext, VCell, VDict,
                 VFunc, VGen, VIter, VList, VMethod, VSet, VSlice, VSuper, embed, is_conc, is_num, iterm, lookup_cls, mk_exc,
                 mkbool, mkint, seqlen, seqterm, uf)


def nat(*fns):
    def d(f):
        for x in fns:
            NATIVES[x] = f
        return f
    return d


def tail_to(fn, *reals):
    """builtin modelled by an interpreted prelude function"""
    def h(m, args, kw):
        raise Tail(fn, args, kw)
    for r in reals:
        NATIVES[r] = h


# ------------------------------------------------------------------ lists
def list_append(m, l, v):
    if l.items is not None:
        l.items.append(v)
    else:
        l.ty = M.lub(l.ty, M.val_ty(v))
        l.t = z3.simplify(z3.Concat(l.t, z3.Unit(embed(v))))


def list_extend(m, l, v, ret=("drop",)):
    v = m.force(v)
    if isinstance(v, VDict):
        v = tuple(v.d)
    if isinstance(v, str):
        v = tuple(v)
    if isinstance(v, (tuple, SSeq, VList)):
        if l.items is not None and (isinstance(v, tuple) or isinstance(v, VList) and v.items is not None):
            l.items.extend(list(v) if isinstance(v, tuple) else list(v.items))
        else:
            t = z3.simplify(z3.Concat(seqterm(l), seqterm(v)))
            l.ty = M.lub(M.seq_ty(l), M.seq_ty(v))
            l.items, l.t = None, t
        return
    raise Tail(prelude.pv_list_extend, (l, v), ret=ret)


def freeze(m, v):
    if isinstance(v, VList):
        return tuple(v.items) if v.items is not None else SSeq(v.t, "tuple", v.ty)
    return v


@nat(prelude._freeze)
def _(m, a, kw):
    return freeze(m, a[0])


@nat(tuple)
def _tuple(m, a, kw):
    if not a:
        return ()
    v = m.force(a[0])
    if isinstance(v, tuple):
        return v
    if isinstance(v, SSeq):
        return v if v.kind == "tuple" else SSeq(v.t, "tuple", v.ty)
    if isinstance(v, VList):
        return freeze(m, v)
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, (VDict, VSet)):
        return tuple(v.d)
    if isinstance(v, range):
        return tuple(v)
    raise Tail(prelude.pv_tuple, (v,))


@nat(list)
def _list(m, a, kw):
    if not a:
        return VList([])
    v = m.force(a[0])
    if isinstance(v, tuple):
        return VList(list(v))
    if isinstance(v, SSeq):
        return VList(None, v.t, v.ty)
    if isinstance(v, VList):
        return VList(list(v.items) if v.items is not None else None, v.t, v.ty)
    if isinstance(v, (str, range)):
        return VList(list(v))
    if isinstance(v, (VDict, VSet)):
        return VList(list(v.d))
    raise Tail(prelude.pv_to_list, (v,))


@nat(dict)
def _dict(m, a, kw):
    if not a:
        return VDict(dict(kw))
    v = a[0]
    if isinstance(v, VDict):
        return VDict({**v.d, **kw})
    raise Tail(prelude.pv_dict, (v, VDict(dict(kw))))


@nat(set, frozenset)
def _set(m, a, kw):
    if not a:
        return VSet()
    v = a[0]
    if isinstance(v, VSet):
        return VSet(dict(v.d))
    if isinstance(v, (tuple, str)):
        return VSet({hkey(x): x for x in v})
    if isinstance(v, VList) and v.items is not None:
        return VSet({hkey(x): x for x in v.items})
    raise Tail(prelude.pv_set, (v,))


# ------------------------------------------------------------------ basic functions
@nat(len)
def _len(m, a, kw):
    v = m.force(a[0])
    if isinstance(v, Obj):
        meth, _ = lookup_cls(v.cls, "__len__")
        if meth is None:
            raise PyExc(mk_exc(TypeError, "object has no len()"))
        raise Tail(meth, (v,))
    if isinstance(v, (VDict, VSet)):
        return len(v.d)
    if isinstance(v, (tuple, SSeq, VList, str, range)):
        return seqlen(v)
    if isinstance(v, Sym):
        if v.sort != "V":
            raise PyExc(mk_exc(TypeError, "object of type 'int' has no len()"))
        if m.decide(mkbool(V.is_vtup(v.t))):
            return mkint(z3.Length(V.tq(v.t)))
        raise Unsupported("len of an opaque value")
    if isinstance(v, (VGen, VIter)):
        raise PyExc(mk_exc(TypeError, "object has no len()"))
    return m.native(len, (v,), {})


@nat(isinstance)
def _isinstance(m, a, kw):
    return m.isinst(a[0], a[1])


@nat(issubclass)
def _issub(m, a, kw):
    return m.native(issubclass, a, {})


@nat(type)
def _type(m, a, kw):
    if len(a) != 1:
        raise Unsupported("dynamic class creation")
    t = m.typeof(m.force(a[0]))
    if t is None:
        raise Unsupported("type of an opaque value")
    return t


@nat(callable)
def _callable(m, a, kw):
    v = m.force(a[0])
    if isinstance(v, Obj):
        return lookup_cls(v.cls, "__call__")[0] is not None
    if isinstance(v, (VFunc, VMethod, BNat, AbsFun)):
        return True
    if isinstance(v, Sym):
        if v.sort != "V":
            return False
        if v.ty is not None and m.st.is_fun(v.ty):
            return True
        return Sym("B", uf("callable", T.V, T.B)(v.t))
    if isinstance(v, (SSeq, VList, VDict, VSet, VGen, VIter)):
        return False
    return callable(v)


@nat(getattr)
def _getattr(m, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("symbolic attribute name")
    if len(a) == 2:
        return m.getattr(a[0], a[1])
    try:
        return m.getattr(a[0], a[1])
    except PyExc as e:
        if issubclass(e.obj.cls, AttributeError):
            return a[2]
        raise
    except Tail as t:
        raise Tail(t.fn, t.args, t.kw, ("getattr_default", a[2]))


@nat(hasattr)
def _hasattr(m, a, kw):
    v = m.force(a[0])
    if isinstance(v, Sym) and v.sort == "V":
        m.st.assume_note("opaque user values are not instances of library classes, generators or exceptions")
        return Sym("B", uf(f"hasattr_{a[1]}", T.V, T.B)(v.t))
    try:
        m.getattr(v, a[1])
        return True
    except PyExc as e:
        if issubclass(e.obj.cls, AttributeError):
            return False
        raise
    except Tail as t:
        raise Tail(t.fn, t.args, t.kw, ("hasattr",))


@nat(setattr)
def _setattr(m, a, kw):
    raise Tail(prelude.pv_setattr, a)


@nat(prelude._setattr_raw)
def _(m, a, kw):
    m.setattr(*a)
    return None


@nat(delattr)
def _delattr(m, a, kw):
    raise Tail(prelude.pv_delattr, a)


@nat(prelude._delattr_raw)
def _(m, a, kw):
    if a[1] not in a[0].attrs:
        raise PyExc(mk_exc(AttributeError, a[1]))
    del a[0].attrs[a[1]]


@nat(id)
def _id(m, a, kw):
    v = a[0]
    if isinstance(v, Sym):
        return Sym("I", uf("id", T.V, T.I)(embed(v)))
    raise Unsupported("id()")


@nat(hash)
def _hash(m, a, kw):
    v = m.force(a[0])
    if isinstance(v, Obj):
        h, owner = lookup_cls(v.cls, "__hash__")
        if h is None:
            raise PyExc(mk_exc(TypeError, f"unhashable type: '{v.cls.__name__}'"))
        if isinstance(h, types.FunctionType):
            raise Tail(h, (v,))
        return Sym("I", T.hash_uf(V.vatom(z3.Int(f"objid!{id(v)}"))))
    if isinstance(v, (VList, VDict, VSet)):
        raise PyExc(mk_exc(TypeError, "unhashable type"))
    if isinstance(v, tuple) and has_obj(v):
        raise Tail(prelude.pv_hash_tuple, (v,))
    m.st.assume_note("hash of user values is a function of the value")
    return Sym("I", T.hash_uf(embed(v)))


@nat(prelude._hash_combine)
def _(m, a, kw):
    return Sym("I", uf("hashcomb", T.I, T.I, T.I)(iterm(a[0]), iterm(a[1])))


@nat(repr)
def _repr(m, a, kw):
    v = m.force(a[0])
    if is_conc(v) and isinstance(v, (int, str, bool, type(None), float)):
        return repr(v)
    if isinstance(v, Obj):
        raise Tail(prelude.pv_repr, (v,))
    return m.opaque_str("repr", [v])


@nat(str)
def _str(m, a, kw):
    if not a:
        return ""
    v = m.force(a[0])
    if is_conc(v) and isinstance(v, (int, str, bool, type(None), float)):
        return str(v)
    if isinstance(v, Obj):
        raise Tail(prelude.pv_str, (v,))
    if isinstance(v, SSeq) and v.kind == "str":
        return v
    return m.opaque_str("str", [v])


@nat(prelude._pymeth)
def _pymeth(m, a, kw):
    """bound Python-level method of an object, or None"""
    o, name = a
    o = m.force(o)
    if isinstance(o, Obj):
        f, owner = lookup_cls(o.cls, name)
        if isinstance(f, types.FunctionType):
            return VMethod(o, f)
    return None


@nat(prelude._reflected_first)
def _(m, a, kw):
    x, y = m.force(a[0]), m.force(a[1])
    return (isinstance(x, Obj) and isinstance(y, Obj) and x.cls is not y.cls and issubclass(y.cls, x.cls))


@nat(prelude._prim_eq)
def _(m, a, kw):
    x, y = a
    if isinstance(x, Obj) or isinstance(y, Obj):
        return identical(m, x, y)
    return equal(m, x, y)


@nat(prelude._ident)
def _(m, a, kw):
    return identical(m, a[0], a[1])


@nat(prelude._opaque_str)
def _(m, a, kw):
    return m.opaque_str(a[0], a[1:])


@nat(prelude._clsname)
def _(m, a, kw):
    return a[0].cls.__name__


@nat(bool)
def _bool(m, a, kw):
    if not a:
        return False
    v = m.force(a[0])
    if isinstance(v, Obj):
        raise Tail(prelude.pv_bool, (v,))
    return m.truth(v)


@nat(int)
def _int(m, a, kw):
    if not a:
        return 0
    v = m.force(a[0])
    if is_num(v):
        return mkint(iterm(v)) if isinstance(v, Sym) else int(v)
    if is_conc(v) and all(is_conc(x) for x in a):
        return m.native(int, a, kw)
    return m.st.parse_number(m, "int", v)


@nat(float)
def _float(m, a, kw):
    v = m.force(a[0]) if a else 0
    if is_conc(v):
        return m.native(float, (v,), {})
    return m.st.parse_number(m, "float", v)


@nat(iter)
def _iter(m, a, kw):
    if len(a) == 2:
        raise Tail(prelude.pv_iter2, a)
    raise Tail(prelude.pv_iter, a)


@nat(prelude._prim_iter)
def _(m, a, kw):
    # GET_ITER pushes on the current frame (the prelude function's)
    get_iter(m, a[0])
    return m.frames[-1].stack.pop()


@nat(next)
def _next(m, a, kw):
    it = m.force(a[0])
    dret = ("push_default", a[1]) if len(a) > 1 else None
    if isinstance(it, VIter):
        ok, x = iter_next(m, it)
        if ok:
            return x
        if dret:
            return a[1]
        raise PyExc(mk_exc(StopIteration))
    if isinstance(it, VGen) and it.kind == "gen":
        raise Tail(prelude._resume, (it, None), ret=dret)
    if isinstance(it, Obj):
        meth, _ = lookup_cls(it.cls, "__next__")
        if meth is None:
            raise PyExc(mk_exc(TypeError, f"'{it.cls.__name__}' object is not an iterator"))
        raise Tail(meth, (it,), ret=dret)
    if isinstance(it, Sym):
        raise Unsupported("next of an opaque value")
    raise PyExc(mk_exc(TypeError, "object is not an iterator"))


def _resume_native(m, fn, args, kw, ret):
    """generator resumption as a call with an arbitrary continuation"""
    gen, val = args[0], args[1]
    exc = args[2] if len(args) > 2 else None
    if isinstance(gen, VAnext):
        return m.anext_step(gen, val, ("next_to", ret), exc)
    return m.resume(gen, val, ("next_to", ret), exc)


SPECIAL = {prelude._resume: _resume_native}


@nat(print)
def _print(m, a, kw):
    return None


@nat(typing.cast)
def _cast(m, a, kw):
    return a[1]


@nat(super)
def _super(m, a, kw):
    if a:
        return VSuper(a[0], a[1])
    f = m.frames[-1]
    cls = f.loc["__class__"]
    cls = cls.v if isinstance(cls, VCell) else cls
    slf = f.loc[f.ci.co.co_varnames[0]]
    if isinstance(slf, VCell):
        slf = slf.v
    return VSuper(cls, slf)


@nat(inspect.isgenerator)
def _isgen(m, a, kw):
    return isinstance(a[0], VGen) and a[0].kind == "gen"


@nat(inspect.iscoroutine)
def _iscoro(m, a, kw):
    return isinstance(a[0], VGen) and a[0].kind == "coro"


@nat(inspect.isasyncgen)
def _isagen(m, a, kw):
    return isinstance(a[0], VGen) and a[0].kind == "agen"


@nat(inspect.isawaitable)
def _isaw(m, a, kw):
    v = m.force(a[0])
    if isinstance(v, Obj):
        return lookup_cls(v.cls, "__await__")[0] is not None
    return isinstance(v, VGen) and v.kind == "coro" or isinstance(v, VAnext)


def _fnflags(v):
    while isinstance(v, VMethod):
        v = v.fn
    if isinstance(v, VFunc):
        return v.code.co_flags
    if isinstance(v, types.FunctionType):
        return v.__code__.co_flags
    return 0


@nat(asyncio.iscoroutinefunction)
@nat(inspect.iscoroutinefunction)
def _iscf(m, a, kw):
    return bool(_fnflags(a[0]) & 0x80)


@nat(inspect.isgeneratorfunction)
def _isgf(m, a, kw):
    return bool(_fnflags(a[0]) & 0x20)


@nat(inspect.isasyncgenfunction)
def _isagf(m, a, kw):
    return bool(_fnflags(a[0]) & 0x200)


@nat(functools.wraps)
def _wraps(m, a, kw):
    return prelude.pv_ident


@nat(functools.update_wrapper)
def _upw(m, a, kw):
    return a[0]


@nat(dataclasses.fields)
def _fields(m, a, kw):
    o = a[0]
    if isinstance(o, Obj):
        d = o.attrs.get("__dataclass_fields__") or VDict(dict(lookup_cls(o.cls, "__dataclass_fields__")[0]))
        fs = d.d if isinstance(d, VDict) else d
        return tuple(f for f in fs.values() if f._field_type is dataclasses._FIELD)
    return dataclasses.fields(o)


@nat(vars)
def _vars(m, a, kw):
    if isinstance(a[0], Obj):
        return VDict(dict(a[0].attrs))
    raise Unsupported("vars")


@nat(object)
def _object(m, a, kw):
    return Obj(object)


@nat(sorted)
def _sorted(m, a, kw):
    raise Tail(prelude.pv_sorted, a, kw)


@nat(prelude._sort_uf)
def _(m, a, kw):
    """sorted copy of a symbolic sequence under the natural order / with opaque keys: an uninterpreted permutation"""
    seq, keys, rev = a
    q = seqterm(seq)
    m.st.assume_note("sorted() is a function of the element and key sequences and the reverse flag (stable sort, trusted builtin)")
    k = seqterm(keys)
    r = uf("sorted", T.Q, T.Q, T.B, T.Q)(q, k, z3.BoolVal(rev) if isinstance(rev, bool) else m.truth(rev).t)
    m.st.fact(z3.Length(r) == z3.Length(q))
    return VList(None, r, getattr(seq, "ty", None))


@nat(prelude._is_concrete_seq)
def _(m, a, kw):
    v = a[0]
    return isinstance(v, (tuple, str, range)) or isinstance(v, VList) and v.items is not None


@nat(prelude._is_symint)
def _(m, a, kw):
    return isinstance(a[0], Sym)


@nat(prelude._mkseqiter)
def _(m, a, kw):
    seq, back = a
    if isinstance(seq, VDict):
        seq = tuple(seq.d)
    if back:
        n = seqlen(seq)
        return m.mkiter(seq, mkint(iterm(n) - 1) if isinstance(n, Sym) else n - 1, -1)
    return m.mkiter(seq)


@nat(prelude._drain)
def _(m, a, kw):
    """all remaining elements of an iterator over a sequence at once (None for any other iterator)"""
    it = a[0]
    if not isinstance(it, VIter) or it.step != 1 or isinstance(it.seq, range):
        return None
    if it.done:
        return ()
    seq = it.seq
    if isinstance(seq, (tuple, str)) and isinstance(it.idx, int):
        r = tuple(seq[it.idx:])
    elif isinstance(seq, VList) and seq.items is not None and isinstance(it.idx, int):
        r = tuple(seq.items[it.idx:])
    elif isinstance(seq, (tuple, SSeq, VList)):
        t = seqterm(seq)
        i = iterm(it.idx)
        r = SSeq(t if it.idx == 0 and isinstance(it.idx, int) else z3.simplify(z3.SubSeq(t, i, z3.Length(t) - i)), "tuple", getattr(seq, "ty", None))
    else:
        return None
    it.done = True
    return r


@nat(prelude._is_seq)
def _(m, a, kw):
    return isinstance(a[0], (tuple, SSeq, VList, str, range))


@nat(prelude._is_obj)
def _(m, a, kw):
    return isinstance(a[0], Obj)


@nat(prelude._agg)
def _(m, a, kw):
    """uninterpreted aggregate of a symbolic sequence (trusted builtin)"""
    name, seq = a[0], a[1]
    m.st.assume_note(f"builtin {name}() is a function of the sequence of its elements")
    extra = [embed(x) for x in a[2:]]
    return Sym("V", uf(f"agg_{name}", T.Q, *([T.V] * len(extra)), T.V)(seqterm(seq), *extra))


@nat(range)
def _range(m, a, kw):
    a = [x for x in a]
    if all(isinstance(x, int) for x in a):
        return m.native(range, tuple(a), {})
    if any(x is None for x in a):
        raise PyExc(mk_exc(TypeError, "'NoneType' object cannot be interpreted as an integer"))
    raise Tail(prelude.pv_range, a)


_CLASSES = {}


@nat(builtins.__build_class__)
def _build_class(m, a, kw):
    """a class statement inside a function whose body does not close over local values"""
    fn, name, *bases = a
    if not isinstance(fn, VFunc) or fn.closure or kw or not all(M.is_conc(b) for b in bases):
        raise Unsupported("local class")
    k = (fn.code, tuple(map(repr, bases)))
    if k not in _CLASSES:
        _CLASSES[k] = __build_class__(types.FunctionType(fn.code, fn.globs), name, *bases)
    return _CLASSES[k]


tail_to(prelude.pv_array, array.array)
M.CLASS_ALIAS.update({prelude.pv_array: array.array, prelude.pv_bytearray: bytearray, prelude.pv_range: range})


@nat(bytearray)
def _bytearray(m, a, kw):
    if a and (isinstance(a[0], (str, int, bytes)) or isinstance(a[0], Sym)):
        raise Unsupported("bytearray of a string, a size or bytes")
    raise Tail(prelude.pv_bytearray, a, kw)


@nat(prelude._fits)
def _(m, a, kw):
    """every element of the sequence is known to be an integer between the bounds"""
    if not isinstance(a[0], (SSeq, VList, tuple)):
        return False
    ty = M.seq_ty(a[0])
    return isinstance(ty, lang.IntT) and ty.lo is not None and ty.hi is not None and ty.lo >= a[1] and ty.hi <= a[2]


@nat(prelude._unsupported)
def _(m, a, kw):
    raise Unsupported(a[0])


@nat(copy.copy)
def _copy(m, a, kw):
    raise Tail(prelude.pv_copy, a)


@nat(copy.deepcopy)
def _dcopy(m, a, kw):
    raise Tail(prelude.pv_deepcopy, a if len(a) > 1 else (a[0], VDict()))


@nat(prelude._deepcopy_opaque)
def _(m, a, kw):
    m.st.assume_note("deepcopy of an opaque user value is an equal value")
    return a[0]


@nat(abs)
def _abs(m, a, kw):
    if isinstance(a[0], Sym) and a[0].sort == "I":
        return mkint(z3.If(a[0].t < 0, -a[0].t, a[0].t))
    return m.native(abs, a, {})


@nat(slice)
def _slice(m, a, kw):
    a = list(a)
    if len(a) == 1:
        a = [None] + a
    return VSlice(*a)


tail_to(prelude.pv_map, map)
tail_to(prelude.pv_filter, filter)
tail_to(prelude.pv_zip, zip)
tail_to(prelude.pv_enumerate, enumerate)
tail_to(prelude.pv_reversed, reversed)
tail_to(prelude.pv_sum, sum)
tail_to(prelude.pv_min, min)
tail_to(prelude.pv_max, max)
tail_to(prelude.pv_any, any)
tail_to(prelude.pv_all, all)
tail_to(prelude.pv_reduce, functools.reduce)
tail_to(prelude.pv_partial, functools.partial)
tail_to(prelude.pv_chain, itertools.chain)
NATIVES[itertools.chain.from_iterable] = lambda m, a, kw: (_ for _ in ()).throw(Tail(prelude.pv_chain_from, a, kw))
tail_to(prelude.pv_islice, itertools.islice)
tail_to(prelude.pv_takewhile, itertools.takewhile)
tail_to(prelude.pv_dropwhile, itertools.dropwhile)
tail_to(prelude.pv_accumulate, itertools.accumulate)
tail_to(prelude.pv_starmap, itertools.starmap)
tail_to(prelude.pv_count, itertools.count)
tail_to(prelude.pv_repeat, itertools.repeat)
tail_to(prelude.pv_pairwise, itertools.pairwise)
tail_to(prelude.pv_deque, collections.deque)
tail_to(prelude.pv_RLock, threading.RLock)
tail_to(prelude.pv_Lock, threading.Lock)
tail_to(prelude.pv_Event, threading.Event)
tail_to(prelude.pv_Future, asyncio.Future)
tail_to(prelude.pv_Task, asyncio.Task)
tail_to(prelude.pv_get_running_loop, asyncio.get_running_loop, asyncio.get_event_loop)
tail_to(prelude.pv_running_loop, asyncio._get_running_loop)
tail_to(prelude.pv_set_running_loop, asyncio._set_running_loop)
tail_to(prelude.pv_create_task, asyncio.create_task)
tail_to(prelude.pv_ensure_future, asyncio.ensure_future)
tail_to(prelude.pv_sleep, asyncio.sleep)
tail_to(prelude.pv_asyncio_run, asyncio.run)
tail_to(prelude.pv_isfuture, asyncio.isfuture)
tail_to(prelude.pv_SimpleQueue, queue.SimpleQueue, queue.Queue)
M.CLASS_ALIAS.update({prelude.pv_Future: asyncio.Future, prelude.pv_Task: asyncio.Task, prelude.pv_SimpleQueue: queue.SimpleQueue})
tail_to(prelude.pv_aiter, aiter)
tail_to(prelude.pv_anext, anext)


@nat(itertools.tee)
def _tee(m, a, kw):
    raise Unsupported("tee")


@nat(operator.add)
def _opadd(m, a, kw):
    return binop(m, "+", a[0], a[1])


for _n, _f in (("-", operator.sub), ("*", operator.mul)):
    NATIVES[_f] = (lambda o: lambda m, a, kw: binop(m, o, a[0], a[1]))(_n)
for _n, _f in (("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
    NATIVES[_f] = (lambda o: lambda m, a, kw: compare(m, o, a[0], a[1]))(_n)
NATIVES[operator.getitem] = lambda m, a, kw: subscr(m, a[0], a[1])
NATIVES[operator.not_] = lambda m, a, kw: (lambda b: (not b) if isinstance(b, bool) else mkbool(z3.Not(b.t)))(m.truth(m.force(a[0])))

PURE.update([chr, ord, round, divmod, pow])

# the environment of contracts


@nat(lang.emit)
def _emit(m, a, kw):
    raise Tail(EMIT, a)


@nat(lang.ask)
def _ask(m, a, kw):
    raise Tail(ASK, a)


@nat(lang.choose)
def _choose(m, a, kw):
    raise Tail(AbsFun(f"choose{a[0]}", lang.FunT(lang.ConstT(*range(a[0])), raises=False)), a[1:])


@nat(lang.fresh)
def _fresh(m, a, kw):
    raise Tail(AbsFun("fresh", lang.FunT(a[0], raises=False)), a[1:])


@nat(lang.assume)
def _assume(m, a, kw):
    b = m.truth(m.force(a[0]))
    if b is False or (b is not True and not m.st.decide(b.t)):
        raise Dead()


@nat(lang.symbolic)
def _symbolic(m, a, kw):
    return True


EMIT = AbsFun("emit", lang.FunT(lang.NoneT(), raises=False))
ASK = AbsFun("ask", lang.FunT(lang.Bool, raises=False))

import collections.abc as _abc  # noqa: E402

ALLOW_CLASSES.update([BaseException, _abc.KeysView, _abc.ValuesView])


# ------------------------------------------------------------------ methods of builtin types
def call_method(m, o, name, args, kw):
    h = METHODS.get((kind_of(m, o), name))
    if h is None:
        if is_conc(o) and all(is_conc(a) for a in args) and not kw:
            return m.native(getattr(o, name), args, {})
        raise Unsupported(f"method {kind_of(m, o)}.{name}")
    return h(m, o, *args, **kw)


def kind_of(m, o):
    if isinstance(o, VList):
        return "list"
    if isinstance(o, (tuple,)):
        return "tuple"
    if isinstance(o, SSeq):
        return o.kind
    if isinstance(o, VDict):
        return "dict"
    if isinstance(o, VSet):
        return "set"
    if isinstance(o, VGen):
        return o.kind
    if isinstance(o, VAnext):
        return "anext"
    if isinstance(o, VIter):
        return "iter"
    if isinstance(o, str):
        return "str"
    if isinstance(o, Sym):
        return {"I": "int", "B": "int", "V": "opaque"}[o.sort]
    return type(o).__name__


METHODS = {}


def meth(kinds, name):
    def d(f):
        for k in kinds.split():
            METHODS[(k, name)] = f
        return f
    return d


@meth("list", "append")
def _(m, o, v):
    list_append(m, o, v)


@meth("list", "extend")
def _(m, o, v):
    list_extend(m, o, v, ret=("push",))


@meth("list", "pop")
def _(m, o, idx=-1):
    if o.items is not None and isinstance(idx, int):
        if not o.items:
            raise PyExc(mk_exc(IndexError, "pop from empty list"))
        try:
            return o.items.pop(idx)
        except IndexError:
            raise PyExc(mk_exc(IndexError, "pop index out of range"))
    t = seqterm(o)
    n = z3.Length(t)
    j = iterm(norm_index(m, idx, n))
    o.ty = M.seq_ty(o)
    x = m.elem(t[j], o.ty)
    o.t = z3.simplify(z3.Concat(z3.SubSeq(t, 0, j), z3.SubSeq(t, j + 1, n - j - 1)))
    o.items = None
    return x


@meth("list", "insert")
def _(m, o, idx, v):
    if o.items is not None and isinstance(idx, int):
        o.items.insert(idx, v)
        return
    t = seqterm(o)
    n = z3.Length(t)
    i = iterm(idx)
    j = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
    o.ty = M.lub(M.seq_ty(o), M.val_ty(v))
    o.t = z3.simplify(z3.Concat(z3.SubSeq(t, 0, j), z3.Unit(embed(v)), z3.SubSeq(t, j, n - j)))
    o.items = None


@meth("list", "reverse")
def _(m, o):
    if o.items is not None:
        o.items.reverse()
        return
    r = uf("rev", T.Q, T.Q)(o.t)
    m.st.fact(z3.Length(r) == z3.Length(o.t))
    o.t = r


@meth("list", "clear")
def _(m, o):
    o.items, o.t = [], None


@meth("list", "copy")
def _(m, o):
    return VList(list(o.items) if o.items is not None else None, o.t, o.ty)


@meth("list", "sort")
def _(m, o, **kw):
    raise Tail(prelude.pv_list_sort, (o,), kw)


@meth("list tuple", "index")
def _(m, o, v, *r):
    raise Tail(prelude.pv_index, (o, v) + r)


@meth("list tuple", "count")
def _(m, o, v):
    raise Tail(prelude.pv_seqcount, (o, v))


@meth("list", "remove")
def _(m, o, v):
    raise Tail(prelude.pv_list_remove, (o, v))


@meth("list", "__setitem_all__")
def _(m, o, src):
    o.items, o.t, o.ty = (list(src.items) if src.items is not None else None), src.t, src.ty


@nat(prelude._list_assign)
def _(m, a, kw):
    o, src = a
    o.items, o.t, o.ty = (list(src.items) if src.items is not None else None), src.t, src.ty


@meth("list tuple", "__len__")
def _(m, o):
    return seqlen(o)


@meth("list tuple str", "__iter__")
def _(m, o):
    return m.mkiter(o)


@meth("list tuple", "__getitem__")
def _(m, o, k):
    return subscr(m, o, k)


@meth("list tuple dict str", "__contains__")
def _(m, o, x):
    if isinstance(o, VDict):
        return hkey(x) in o.d
    raise Tail(prelude.pv_contains, (o, x))


@meth("list tuple dict", "__eq__")
def _(m, o, x):
    return equal(m, o, x)


@meth("iter", "__next__")
def _(m, o):
    ok, x = iter_next(m, o)
    if ok:
        return x
    raise PyExc(mk_exc(StopIteration))


@meth("iter", "__iter__")
def _(m, o):
    return o


# dict
@meth("dict", "get")
def _(m, o, k, d=None):
    return o.d.get(hkey(k), d)


@meth("dict", "pop")
def _(m, o, k, *d):
    kk = hkey(k)
    if kk in o.d:
        return o.d.pop(kk)
    if d:
        return d[0]
    raise PyExc(mk_exc(KeyError, k))


@meth("dict", "items")
def _(m, o):
    return Obj(prelude.pv_dictview, {"d": o, "kind": "items"})


@meth("dict", "keys")
def _(m, o):
    return Obj(prelude.pv_dictview, {"d": o, "kind": "keys"})


@meth("dict", "values")
def _(m, o):
    return Obj(prelude.pv_dictview, {"d": o, "kind": "values"})


@nat(prelude._dict_part)
def _dict_part(m, a, kw):
    d, k = a[0].d, a[1]
    return tuple(d.items()) if k == "items" else tuple(d) if k == "keys" else tuple(d.values())


@nat(prelude._dict_iter)
def _dict_iter(m, a, kw):
    it = VIter(_dict_part(m, a, kw))
    it.src = (a[0], len(a[0].d))
    return it


@meth("dict", "update")
def _(m, o, *a, **kw):
    for x in a:
        if not isinstance(x, VDict):
            raise Unsupported("dict.update")
        o.d.update(x.d)
    o.d.update(kw)


@meth("dict", "setdefault")
def _(m, o, k, d=None):
    return o.d.setdefault(hkey(k), d)


@meth("dict", "copy")
def _(m, o):
    return VDict(dict(o.d))


@meth("dict", "clear")
def _(m, o):
    o.d.clear()


@meth("dict", "popitem")
def _(m, o):
    if not o.d:
        raise PyExc(mk_exc(KeyError, "empty"))
    return o.d.popitem()


@meth("set", "add")
def _(m, o, v):
    o.d.setdefault(hkey(v, True), v)


@meth("set", "discard")
def _(m, o, v):
    o.d.pop(hkey(v, True), None)


@meth("set", "remove")
def _(m, o, v):
    k = hkey(v, True)
    if k not in o.d:
        raise PyExc(mk_exc(KeyError, v))
    del o.d[k]


# generators
@meth("gen coro", "send")
def _(m, g, v):
    raise Tail(prelude._resume, (g, v))


@meth("gen", "__next__")
def _(m, g):
    raise Tail(prelude._resume, (g, None))


@meth("gen", "__iter__")
def _(m, g):
    return g


@meth("gen coro", "throw")
def _(m, g, e, *rest):
    raise Tail(prelude.pv_gen_throw, (g, e) + rest)


@meth("gen coro", "close")
def _(m, g):
    if g.state in ("new", "done"):
        g.state, g.frame = "done", None
        return None
    raise Tail(prelude.pv_gen_close, (g,))


@meth("coro", "__await__")
def _(m, g):
    return g


@meth("agen", "__aiter__")
def _(m, g):
    return g


@meth("agen", "__anext__")
def _(m, g):
    return VAnext(g)


@meth("agen", "asend")
def _(m, g, v):
    return VAnext(g, v)


@meth("agen", "athrow")
def _(m, g, e, *r):
    return VAnext(g, None, e)


@meth("agen", "aclose")
def _(m, g):
    raise Tail(prelude.pv_agen_close, (g,))


@nat(prelude._gen_state)
def _(m, a, kw):
    return a[0].state


@nat(prelude._mk_anext)
def _(m, a, kw):
    return VAnext(a[0], None, a[1])


@meth("anext", "__await__")
def _(m, g):
    return g


@meth("anext", "send")
def _(m, g, v):
    raise Tail(prelude._resume, (g, v))


@meth("str", "join")
def _(m, o, it):
    if isinstance(it, VList) and it.items is not None and all(isinstance(x, str) for x in it.items):
        return o.join(it.items)
    if isinstance(it, tuple) and all(isinstance(x, str) for x in it):
        return o.join(it)
    if isinstance(it, (SSeq, VList, tuple)):
        return m.st.str_join(m, o, it)
    raise Tail(prelude.pv_join, (o, it))


@meth("str", "startswith")
def _(m, o, p):
    if isinstance(o, str) and isinstance(p, str):
        return o.startswith(p)
    if not all(isinstance(x, str) or isinstance(x, SSeq) and x.kind == "str" for x in (o, p)):
        raise Unsupported("startswith")
    return mkbool(z3.PrefixOf(seqterm(p), seqterm(o)))


@meth("str", "format")
def _(m, o, *a, **kw):
    return m.opaque_str("format", [o, *a])

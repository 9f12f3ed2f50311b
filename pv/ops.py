"""Opcode semantics (CPython 3.12)."""
from __future__ import annotations

import builtins
import operator
import types

import z3

from . import lang
from . import terms as T
from . import vm as M
from .terms import V
from .vm import (Splat, AGWrap, BNat, Frame, Fork, Machine, NULL, NATIVES, OPS, Obj, PyExc, SSeq, Sym, Tail, UNBOUND, Unsupported,
                 VAnext, VCell, VDict, VFunc, VGen, VIter, VList, VMethod, VSet, VSlice, VSuper, embed, info, is_conc,
                 is_num, iterm, lookup_cls, mk_exc, mkbool, mkint, seqlen, seqterm, uf)


NEVER_USER = (StopIteration, StopAsyncIteration, GeneratorExit)


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


@op("RESUME", "NOP", "CACHE", "EXTENDED_ARG", "SETUP_ANNOTATIONS")
def _nop(m, f, i):
    pass


@op("POP_TOP")
def _pop(m, f, i):
    f.stack.pop()


@op("END_FOR")
def _end_for(m, f, i):
    # FOR_ITER exhaustion jumps past END_FOR; falling into it cannot happen
    f.stack.pop()
    f.stack.pop()


@op("PUSH_NULL")
def _pn(m, f, i):
    f.stack.append(NULL)


@op("LOAD_CONST")
def _lc(m, f, i):
    v = i.argval
    if isinstance(v, frozenset):
        v = VSet({a: a for a in v})
    f.stack.append(v)


@op("RETURN_CONST")
def _rc(m, f, i):
    m.return_value(f, i.argval)


@op("RETURN_VALUE")
def _rv(m, f, i):
    m.return_value(f, f.stack.pop())


@op("LOAD_FAST", "LOAD_FAST_CHECK")
def _lf(m, f, i):
    v = f.loc.get(i.argval, UNBOUND)
    if v is UNBOUND:
        raise PyExc(mk_exc(UnboundLocalError, i.argval))
    f.stack.append(v)


@op("LOAD_FAST_AND_CLEAR")
def _lfc(m, f, i):
    f.stack.append(f.loc.pop(i.argval, NULL))


@op("STORE_FAST")
def _sf(m, f, i):
    v = f.stack.pop()
    if v is NULL:
        f.loc.pop(i.argval, None)
    else:
        f.loc[i.argval] = v


@op("DELETE_FAST")
def _df(m, f, i):
    if f.loc.pop(i.argval, UNBOUND) is UNBOUND:
        raise PyExc(mk_exc(UnboundLocalError, i.argval))


@op("MAKE_CELL")
def _mc(m, f, i):
    v = f.loc.get(i.argval, UNBOUND)
    f.loc[i.argval] = VCell(UNBOUND if v is NULL else v)


@op("COPY_FREE_VARS")
def _cfv(m, f, i):
    for n, c in zip(f.ci.co.co_freevars, f.closure):
        f.loc[n] = c


@op("LOAD_CLOSURE")
def _lcl(m, f, i):
    f.stack.append(f.loc[i.argval])


@op("LOAD_DEREF")
def _ld(m, f, i):
    c = f.loc[i.argval]
    if c.v is UNBOUND:
        raise PyExc(mk_exc(NameError, i.argval))
    f.stack.append(c.v)


@op("STORE_DEREF")
def _sd(m, f, i):
    f.loc[i.argval].v = f.stack.pop()


@op("DELETE_DEREF")
def _dd(m, f, i):
    f.loc[i.argval].v = UNBOUND


@op("LOAD_GLOBAL", "LOAD_NAME")
def _lg(m, f, i):
    n = i.argval
    g = f.globs
    if n in g:
        v = m.st.global_override(g, n, g[n])
    elif hasattr(builtins, n):
        v = m.st.global_override(g, n, getattr(builtins, n))
    else:
        raise PyExc(mk_exc(NameError, n))
    if i.opname == "LOAD_GLOBAL" and i.arg & 1:
        f.stack.append(NULL)
    f.stack.append(m.lift(v))


@op("LOAD_BUILD_CLASS")
def _lbc(m, f, i):
    f.stack.append(__build_class__)


@op("LOAD_ASSERTION_ERROR")
def _lae(m, f, i):
    f.stack.append(AssertionError)


@op("IMPORT_NAME")
def _imp(m, f, i):
    fromlist = f.stack.pop()
    level = f.stack.pop()
    import importlib
    pkg = f.globs.get("__package__")
    name = "." * level + i.argval
    try:
        mod = importlib.import_module(name, pkg) if level or fromlist else __import__(i.argval)
    except ImportError as e:
        raise PyExc(mk_exc(ImportError, str(e)))
    f.stack.append(mod)


@op("IMPORT_FROM")
def _impf(m, f, i):
    f.stack.append(m.lift(getattr(f.stack[-1], i.argval)))


@op("COPY")
def _copy(m, f, i):
    f.stack.append(f.stack[-i.arg])


@op("SWAP")
def _swap(m, f, i):
    s = f.stack
    s[-1], s[-i.arg] = s[-i.arg], s[-1]


# ------------------------------------------------------------------ calls
@op("KW_NAMES")
def _kwn(m, f, i):
    f.kwnames = i.argval


@op("CALL")
def _call(m, f, i):
    n = i.arg
    args = tuple(f.stack[len(f.stack) - n:]) if n else ()
    if n:
        del f.stack[-n:]
    a = f.stack.pop()
    b = f.stack.pop()
    if b is NULL:
        fn = a
    else:
        fn = b
        args = (a,) + args
    kwn, f.kwnames = f.kwnames, ()
    kw = {}
    if kwn:
        k = len(kwn)
        kw = dict(zip(kwn, args[len(args) - k:]))
        args = args[:len(args) - k]
    m.call(fn, args, kw)


@op("CALL_FUNCTION_EX")
def _cfe(m, f, i):
    kw = {}
    if i.arg & 1:
        d = f.stack.pop()
        kw = dict(d.d)
    args = f.stack.pop()
    fn = f.stack.pop()
    nul = f.stack.pop()
    if isinstance(args, VList) and args.items is not None:
        args = tuple(args.items)
    if isinstance(args, VList):
        args = SSeq(args.t, "tuple", args.ty)
    if isinstance(args, SSeq):
        args = (Splat(args),)
    if not isinstance(args, tuple):
        if isinstance(args, (Obj, VGen, VIter, Sym, VDict, VSet)):
            from . import prelude
            raise Tail(prelude.pv_call_ex, (fn, args, VDict(kw)))
        args = tuple(m.lift(x) for x in args)
    m.call(fn, args, kw)


@op("MAKE_FUNCTION")
def _mf(m, f, i):
    code = f.stack.pop()
    closure = f.stack.pop() if i.arg & 8 else ()
    if i.arg & 4:
        f.stack.pop()
    kwd = f.stack.pop() if i.arg & 2 else None
    defaults = f.stack.pop() if i.arg & 1 else ()
    M.Registry.owner[code] = f.ci.co
    f.stack.append(VFunc(code, f.globs, defaults, dict(kwd.d) if isinstance(kwd, VDict) else kwd, closure))


@op("RETURN_GENERATOR")
def _rg(m, f, i):
    fl = f.ci.co.co_flags
    kind = "gen" if fl & 0x20 else "coro" if fl & 0x80 else "agen"
    ret = f.ret
    m.frames.pop()
    g = VGen(f, kind)
    f.gen = g
    m.deliver(ret, g)


@op("YIELD_VALUE")
def _yv(m, f, i):
    m.yield_value(f, f.stack.pop())


@op("SEND")
def _send(m, f, i):
    v = f.stack.pop()
    r = f.stack[-1]
    target = f.ci.index[i.argval]
    if isinstance(r, VGen):
        return m.resume(r, v, ("send", target))
    if isinstance(r, VAnext):
        return m.anext_step(r, v, ("send", target))
    if isinstance(r, Obj):
        if v is None:
            meth, _ = lookup_cls(r.cls, "__next__")
            return m.call(meth, (r,), {}, ("send_next", target))
        meth, _ = lookup_cls(r.cls, "send")
        return m.call(meth, (r, v), {}, ("send_next", target))
    if isinstance(r, VIter):
        if not is_none(m, v):
            raise PyExc(mk_exc(AttributeError, "object has no attribute 'send'"))
        ok, x = iter_next(m, r)
        if ok:
            f.stack.append(x)
        else:
            f.stack.append(None)
            f.i = target
        return
    raise Unsupported(f"SEND to {type(r).__name__}")


@op("END_SEND")
def _es(m, f, i):
    v = f.stack.pop()
    f.stack[-1] = v


@op("CLEANUP_THROW")
def _ct(m, f, i):
    e = f.stack.pop()
    if issubclass(e.cls, StopIteration):
        f.stack.pop()
        f.stack.pop()
        f.stack.append(None)
        f.stack.append(e.attrs.get("value"))
        return
    f.stack.append(e)
    m.unwind(f.stack.pop())


@op("GET_YIELD_FROM_ITER")
def _gyfi(m, f, i):
    v = f.stack[-1]
    if isinstance(v, VGen):
        return
    f.stack.pop()
    get_iter(m, v)


@op("GET_AWAITABLE")
def _ga(m, f, i):
    v = f.stack.pop()
    v = m.force(v)
    if isinstance(v, VGen) and v.kind == "coro" or isinstance(v, VAnext):
        f.stack.append(v)
        return
    if isinstance(v, Obj):
        meth, _ = lookup_cls(v.cls, "__await__")
        if meth is not None:
            raise Tail(meth, (v,))
        raise PyExc(mk_exc(TypeError, "object can't be used in 'await' expression"))
    raise Unsupported(f"await {type(v).__name__}")


@op("GET_AITER")
def _gai(m, f, i):
    v = m.force(f.stack.pop())
    if isinstance(v, VGen) and v.kind == "agen":
        f.stack.append(v)
        return
    if isinstance(v, Obj):
        meth, _ = lookup_cls(v.cls, "__aiter__")
        if meth is not None:
            raise Tail(meth, (v,))
    raise PyExc(mk_exc(TypeError, "'async for' requires an object with __aiter__"))


@op("GET_ANEXT")
def _gan(m, f, i):
    v = f.stack[-1]
    if isinstance(v, VGen) and v.kind == "agen":
        f.stack.append(VAnext(v))
        return
    if isinstance(v, Obj):
        meth, _ = lookup_cls(v.cls, "__anext__")
        from . import prelude
        raise Tail(prelude.pv_get_anext, (v,))
    raise Unsupported("GET_ANEXT")


@op("END_ASYNC_FOR")
def _eaf(m, f, i):
    e = f.stack.pop()
    if issubclass(e.cls, StopAsyncIteration):
        f.stack.pop()
        return
    m.unwind(e)


@op("CALL_INTRINSIC_1")
def _ci1(m, f, i):
    a = i.arg
    if a == 3:  # STOPITERATION_ERROR
        e = f.stack.pop()
        kind = f.gen.kind if f.gen else "gen"
        if issubclass(e.cls, StopIteration):
            r = mk_exc(RuntimeError, "generator raised StopIteration")
            r.attrs["__cause__"] = e
            e = r
        elif kind == "agen" and issubclass(e.cls, StopAsyncIteration):
            r = mk_exc(RuntimeError, "async generator raised StopAsyncIteration")
            e = r
        f.stack.append(e)
        return
    if a == 4:  # ASYNC_GEN_WRAP
        f.stack[-1] = AGWrap(f.stack[-1])
        return
    if a == 5:
        f.stack[-1] = unary(m, "+", f.stack[-1])
        return
    if a == 6:  # LIST_TO_TUPLE
        l = f.stack[-1]
        if isinstance(l, tuple):
            return
        f.stack[-1] = tuple(l.items) if l.items is not None else SSeq(l.t, "tuple", l.ty)
        return
    raise Unsupported(f"intrinsic {a}")


@op("LOAD_SUPER_ATTR")
def _lsa(m, f, i):
    slf = f.stack.pop()
    cls = f.stack.pop()
    f.stack.pop()
    if i.arg & 1:
        f.stack.append(NULL)
    f.stack.append(m.getattr(VSuper(cls, slf), i.argval))


# ------------------------------------------------------------------ attributes
@op("LOAD_ATTR")
def _la(m, f, i):
    o = f.stack.pop()
    if i.arg & 1:
        f.stack.append(NULL)
    f.stack.append(m.getattr(o, i.argval))


@op("STORE_ATTR")
def _sa(m, f, i):
    o = f.stack.pop()
    v = f.stack.pop()
    if isinstance(o, Obj) and o.cls in M.Registry.by_attrs and f.ci.co.co_name != "__init__":
        raise Unsupported(f"{o.cls.__name__} objects are changed after construction")
    m.setattr(o, i.argval, v)


@op("DELETE_ATTR")
def _da(m, f, i):
    o = f.stack.pop()
    if isinstance(o, Obj):
        meth, _ = lookup_cls(o.cls, "__delattr__")
        if isinstance(meth, types.FunctionType):
            raise Tail(meth, (o, i.argval), ret=("drop",))
        if i.argval not in o.attrs:
            raise PyExc(mk_exc(AttributeError, i.argval))
        del o.attrs[i.argval]
        return
    raise Unsupported("DELETE_ATTR")


# ------------------------------------------------------------------ jumps
def cond(m, f):
    """truth of TOS as a concrete bool (not popped)"""
    v = m.force(f.stack[-1])
    try:
        b = m.truth(v)
    except Tail as t:
        f.i -= 1
        raise Tail(t.fn, t.args, t.kw, ("retry",))
    return m.decide(b)


def jump(m, f, i):
    f.i = f.ci.index[i.argval]


@op("POP_JUMP_IF_TRUE")
def _pjt(m, f, i):
    b = cond(m, f)
    f.stack.pop()
    if b:
        jump(m, f, i)


@op("POP_JUMP_IF_FALSE")
def _pjf(m, f, i):
    b = cond(m, f)
    f.stack.pop()
    if not b:
        jump(m, f, i)


def is_none(m, v):
    if v is None:
        return True
    v2 = v
    if isinstance(v2, Sym) and v2.sort == "V":
        if v2.ty is not None and not m.st.may_be_none(v2.ty):
            return False
        return m.decide(mkbool(v2.t == V.vnone))
    return False


@op("POP_JUMP_IF_NONE")
def _pjn(m, f, i):
    b = is_none(m, f.stack[-1])
    f.stack.pop()
    if b:
        jump(m, f, i)


@op("POP_JUMP_IF_NOT_NONE")
def _pjnn(m, f, i):
    b = is_none(m, f.stack[-1])
    f.stack.pop()
    if not b:
        jump(m, f, i)


@op("JUMP_FORWARD")
def _jf(m, f, i):
    jump(m, f, i)


@op("JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT")
def _jb(m, f, i):
    jump(m, f, i)
    if i.opname == "JUMP_BACKWARD":
        it = f.stack[-1] if f.stack else None
        if it.__class__ is VIter and it.seq.__class__ in (tuple, range, str) and len(it.seq) <= 40 and f.ci.ins[f.i].opname == "FOR_ITER":
            return  # a loop over a known sequence is followed to its end
        m.last_back = True


# ------------------------------------------------------------------ iteration
def get_iter(m, v):
    """pushes the iterator (or Tail)"""
    v = m.force(v)
    if isinstance(v, (tuple, SSeq, VList, str, range, bytes)):
        return m.push(m.mkiter(v))
    if isinstance(v, VIter):
        return m.push(v)
    if isinstance(v, VGen):
        if v.kind != "gen":
            raise PyExc(mk_exc(TypeError, "not iterable"))
        return m.push(v)
    if isinstance(v, (VDict, VSet)):
        it = VIter(tuple(v.d) if isinstance(v, VDict) else tuple(v.d.values()))
        it.src = (v, len(v.d))
        return m.push(it)
    if isinstance(v, Obj):
        meth, _ = lookup_cls(v.cls, "__iter__")
        if meth is not None:
            if isinstance(meth, types.FunctionType):
                raise Tail(meth, (v,))
            raise Unsupported(f"__iter__ of {v.cls}")
        if lookup_cls(v.cls, "__getitem__")[0] is not None:
            raise Unsupported("old-style iteration")
        raise PyExc(mk_exc(TypeError, f"'{v.cls.__name__}' object is not iterable"))
    if isinstance(v, Sym):
        if v.sort == "V":
            if m.decide(mkbool(V.is_vtup(v.t))):
                return m.push(m.mkiter(SSeq(V.tq(v.t), "tuple")))
            if m.decide(mkbool(V.is_vlist(v.t))):
                return m.push(m.mkiter(SSeq(V.lq(v.t), "list")))
            raise Unsupported("iteration of an opaque value")
        raise PyExc(mk_exc(TypeError, "'int' object is not iterable"))
    if v is None or isinstance(v, (int, float)) or callable(v):
        raise PyExc(mk_exc(TypeError, f"'{type(v).__name__}' object is not iterable"))
    l = m.lift(v)
    if l is not v:
        return get_iter(m, l)
    raise Unsupported(f"iter({type(v).__name__})")


@op("GET_ITER")
def _gi(m, f, i):
    v = f.stack.pop()
    get_iter(m, v)


def iter_next(m, it):
    """(True, x) or (False, None); may Fork before mutating"""
    if it.done:
        return False, None
    if it.src is not None and len(it.src[0].d) != it.src[1]:
        raise PyExc(mk_exc(RuntimeError, "dictionary changed size during iteration"))
    s = it.seq
    if isinstance(s, (SSeq,)) or (isinstance(s, VList) and s.items is None):
        idx = iterm(it.idx)
        n = z3.Length(s.t)
        if it.step > 0:
            more = m.decide(mkbool(idx < n))
        else:
            more = m.decide(mkbool(idx >= 0))
        if more:
            x = m.elem(s.t[idx], s.ty)
            it.idx = mkint(idx + it.step)
            return True, x
        it.done = True
        return False, None
    items = s.items if isinstance(s, VList) else s
    if isinstance(it.idx, Sym):
        # a symbolic position in a concrete sequence: decide it
        for k in range(len(items)):
            if m.decide(mkbool(it.idx.t == k)):
                it.idx = k
                break
        else:
            if isinstance(s, VList):
                it.idx = len(items) if it.step > 0 else -1
            else:
                it.idx = len(items) if it.step > 0 else -1
    if 0 <= it.idx < len(items):
        x = items[it.idx]
        it.idx += it.step
        return True, (m.lift(x) if not isinstance(x, (Sym, Obj)) else x)
    it.done = True
    return False, None


@op("FOR_ITER")
def _fi(m, f, i):
    it = f.stack[-1]
    target = f.ci.index[i.argval] + 1  # past END_FOR
    if isinstance(it, VIter):
        ok, x = iter_next(m, it)
        if ok:
            f.stack.append(x)
        else:
            f.stack.pop()
            f.i = target
        return
    if isinstance(it, VGen):
        return m.resume(it, None, ("for", target))
    if isinstance(it, Obj):
        meth, _ = lookup_cls(it.cls, "__next__")
        if meth is None:
            raise PyExc(mk_exc(TypeError, f"'{it.cls.__name__}' object is not an iterator"))
        return m.call(meth, (it,), {}, ("for_next", target))
    raise Unsupported(f"FOR_ITER over {type(it).__name__}")


# ------------------------------------------------------------------ building
@op("BUILD_TUPLE")
def _bt(m, f, i):
    n = i.arg
    v = tuple(f.stack[len(f.stack) - n:]) if n else ()
    if n:
        del f.stack[-n:]
    f.stack.append(v)


@op("BUILD_LIST")
def _bl(m, f, i):
    n = i.arg
    v = list(f.stack[len(f.stack) - n:]) if n else []
    if n:
        del f.stack[-n:]
    f.stack.append(VList(v))


@op("BUILD_SET")
def _bs(m, f, i):
    n = i.arg
    v = list(f.stack[len(f.stack) - n:]) if n else []
    if n:
        del f.stack[-n:]
    f.stack.append(VSet({hkey(a): a for a in v}))


def hkey(k, ident=False):
    if is_conc(k):
        return k
    if ident and isinstance(k, Obj) and not isinstance(lookup_cls(k.cls, "__eq__")[0], types.FunctionType):
        return M.IdKey(k)
    raise Unsupported("symbolic dictionary key")


@op("BUILD_MAP")
def _bm(m, f, i):
    n = i.arg
    vs = f.stack[len(f.stack) - 2 * n:] if n else []
    if n:
        del f.stack[-2 * n:]
    f.stack.append(VDict({hkey(vs[2 * j]): vs[2 * j + 1] for j in range(n)}))


@op("BUILD_CONST_KEY_MAP")
def _bckm(m, f, i):
    keys = f.stack.pop()
    vs = f.stack[-i.arg:]
    del f.stack[-i.arg:]
    f.stack.append(VDict(dict(zip(keys, vs))))


@op("BUILD_SLICE")
def _bsl(m, f, i):
    step = f.stack.pop() if i.arg == 3 else None
    hi = f.stack.pop()
    lo = f.stack.pop()
    f.stack.append(VSlice(lo, hi, step))


@op("BUILD_STRING")
def _bstr(m, f, i):
    n = i.arg
    vs = f.stack[-n:]
    del f.stack[-n:]
    f.stack.append("".join(vs) if all(isinstance(v, str) for v in vs) else m.opaque_str("cat", vs))


@op("FORMAT_VALUE")
def _fv(m, f, i):
    spec = f.stack.pop() if i.arg & 4 else ""
    v = f.stack.pop()
    if is_conc(v) and isinstance(v, (int, str, float, bool, type(None))):
        conv = {0: lambda x: x, 1: str, 2: repr, 3: ascii}[i.arg & 3]
        f.stack.append(format(conv(v), spec))
        return
    if isinstance(v, Obj) and isinstance(spec, str):
        from . import prelude
        raise Tail(prelude.pv_repr if i.arg & 3 == 2 else prelude.pv_str, (v,))
    f.stack.append(m.opaque_str(f"fmt{i.arg & 3}", [v, spec]))


@op("LIST_APPEND")
def _lap(m, f, i):
    v = f.stack.pop()
    M.natives.list_append(m, f.stack[-i.arg], v)


@op("SET_ADD")
def _sadd(m, f, i):
    v = f.stack.pop()
    f.stack[-i.arg].d.setdefault(hkey(v), v)


@op("MAP_ADD")
def _madd(m, f, i):
    v = f.stack.pop()
    k = f.stack.pop()
    f.stack[-i.arg].d[hkey(k)] = v


@op("LIST_EXTEND")
def _lext(m, f, i):
    v = f.stack.pop()
    l = f.stack[-i.arg]
    if i.arg == 1 and isinstance(v, SSeq) and isinstance(l, VList) and l.items and call_args(f):
        f.stack[-1] = tuple(l.items) + (Splat(v),)   # the argument list of a call: kept as prefix and rest
        return
    M.natives.list_extend(m, l, v, ret=("drop",))


def call_args(f):
    """the list being built is used as the argument list of a call and nothing else"""
    ins = f.ci.ins
    j = f.i
    if not (ins[j].opname == "CALL_INTRINSIC_1" and ins[j].arg == 6):
        return False
    for n in range(j + 1, min(j + 14, len(ins))):
        if ins[n].opname == "CALL_FUNCTION_EX":
            return True
        if not ins[n].opname.startswith(("LOAD_", "BUILD_", "DICT_MERGE", "COPY_FREE")):
            return False
    return False


@op("SET_UPDATE")
def _supd(m, f, i):
    v = f.stack.pop()
    items = v.d if isinstance(v, VSet) else v
    for x in items:
        f.stack[-i.arg].d.setdefault(hkey(x), x)


@op("DICT_MERGE", "DICT_UPDATE")
def _dm(m, f, i):
    v = f.stack.pop()
    if not isinstance(v, VDict):
        raise Unsupported("dict merge")
    d = f.stack[-i.arg]
    if i.opname == "DICT_MERGE":
        for k in v.d:
            if k in d.d:
                raise PyExc(mk_exc(TypeError, f"got multiple values for keyword argument '{k}'"))
    d.d.update(v.d)


def unpack_values(m, v):
    """concrete list of values, or None when the length is symbolic"""
    v = m.force(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, VList) and v.items is not None:
        return list(v.items)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, VDict):
        return list(v.d)
    return None


def as_symseq(m, v):
    if isinstance(v, SSeq) or isinstance(v, VList) and v.items is None:
        return v.t, v.ty
    if isinstance(v, Sym) and v.sort == "V":
        if m.decide(mkbool(V.is_vtup(v.t))):
            return V.tq(v.t), None
        raise Unsupported("unpacking an opaque value")
    return None, None


@op("UNPACK_SEQUENCE")
def _us(m, f, i):
    v = f.stack.pop()
    n = i.arg
    vals = unpack_values(m, v)
    if vals is None:
        t, ty = as_symseq(m, m.force(v))
        if t is None:
            if isinstance(v, (Obj, VGen, VIter)):
                from . import prelude
                f.i -= 1
                f.stack.append(v)
                raise Tail(prelude.pv_to_list, (v,), ret=("retry",))
            raise PyExc(mk_exc(TypeError, "cannot unpack non-iterable"))
        if not m.decide(mkbool(z3.Length(t) == n)):
            raise PyExc(mk_exc(ValueError, "wrong number of values to unpack"))
        vals = [m.elem(t[k], ty) for k in range(n)]
    if len(vals) != n:
        raise PyExc(mk_exc(ValueError, "wrong number of values to unpack"))
    f.stack.extend(reversed(vals))


@op("UNPACK_EX")
def _ue(m, f, i):
    v = f.stack.pop()
    before, after = i.arg & 0xFF, i.arg >> 8
    vals = unpack_values(m, v)
    if vals is None:
        t, ty = as_symseq(m, m.force(v))
        if t is None:
            if isinstance(v, (Obj, VGen, VIter)):
                from . import prelude
                f.i -= 1
                f.stack.append(v)
                raise Tail(prelude.pv_to_list, (v,), ret=("retry",))
            raise PyExc(mk_exc(TypeError, "cannot unpack non-iterable"))
        n = z3.Length(t)
        if not m.decide(mkbool(n >= before + after)):
            raise PyExc(mk_exc(ValueError, "not enough values to unpack"))
        head = [m.elem(t[k], ty) for k in range(before)]
        tail = [m.elem(t[n - after + k], ty) for k in range(after)]
        mid = VList(None, z3.simplify(z3.SubSeq(t, before, n - before - after)), ty)
        f.stack.extend(reversed(head + [mid] + tail))
        return
    if len(vals) < before + after:
        raise PyExc(mk_exc(ValueError, "not enough values to unpack"))
    mid = VList(vals[before:len(vals) - after])
    f.stack.extend(reversed(vals[:before] + [mid] + (vals[len(vals) - after:] if after else [])))


# ------------------------------------------------------------------ exceptions
@op("PUSH_EXC_INFO")
def _pei(m, f, i):
    v = f.stack.pop()
    f.stack.append(f.cur_exc)
    f.stack.append(v)
    f.cur_exc = v


@op("POP_EXCEPT")
def _pe(m, f, i):
    f.cur_exc = f.stack.pop()


@op("CHECK_EXC_MATCH")
def _cem(m, f, i):
    t = f.stack.pop()
    e = f.stack[-1]
    b = exc_match(m, e, t)
    f.stack.append(b)


def exc_match(m, e, t):
    if isinstance(t, tuple):
        r = False
        for x in t:
            b = exc_match(m, e, x)
            if b is True:
                return True
            if b is not False:
                r = b if r is False else mkbool(z3.Or(r.t, b.t))
        return r
    if isinstance(t, Sym) or isinstance(t, SSeq):
        return m.st.exc_match(m, e, t)
    if issubclass(e.cls, t):
        return True
    if e.cls is lang.UserError and isinstance(e.attrs.get("n"), Sym) and not issubclass(t, NEVER_USER) and t.__name__ != "EffectError":
        # the class of a user exception is unknown: it may match any clause that catches less than Exception
        return mkbool(m.st.exc_class(t, e.attrs["n"].t))
    return False


@op("RAISE_VARARGS")
def _rva(m, f, i):
    if i.arg == 0:
        if f.cur_exc is None:
            raise PyExc(mk_exc(RuntimeError, "No active exception to reraise"))
        return m.unwind(f.cur_exc)
    cause = f.stack.pop() if i.arg == 2 else None
    e = f.stack.pop()
    if isinstance(e, type):
        raise Tail(e, (), ret=("raise",))
    if not isinstance(e, Obj):
        l = m.lift(e)
        if isinstance(e, BaseException):
            l = m.exc_obj(e)
        e = l
    if isinstance(e, Sym):
        m.st.assume_note("a value raised by the library from an opaque payload is an exception")
        e = m.st.sym_exc(e)
    if i.arg == 2:
        e.attrs["__cause__"] = cause
    m.unwind(e)


@op("RERAISE")
def _rr(m, f, i):
    e = f.stack.pop()
    m.unwind(e)


@op("BEFORE_WITH")
def _bw(m, f, i):
    o = f.stack.pop()
    ex = m.getattr(o, "__exit__")
    en = m.getattr(o, "__enter__")
    f.stack.append(ex)
    m.call(en, (), {})


@op("BEFORE_ASYNC_WITH")
def _baw(m, f, i):
    o = f.stack.pop()
    ex = m.getattr(o, "__aexit__")
    en = m.getattr(o, "__aenter__")
    f.stack.append(ex)
    m.call(en, (), {})


@op("WITH_EXCEPT_START")
def _wes(m, f, i):
    e = f.stack[-1]
    ex = f.stack[-4]
    m.call(ex, (e.cls, e, None), {})


# ------------------------------------------------------------------ match
@op("MATCH_CLASS")
def _mcl(m, f, i):
    names = f.stack[-1]
    cls = f.stack[-2]
    subj = m.force(f.stack[-3])
    b = m.isinst(subj, cls)
    b = m.decide(b)
    if not b:
        del f.stack[-3:]
        f.stack.append(None)
        return
    n = i.arg
    attrs = []
    if n:
        if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
            attrs = [None]
        else:
            ma = getattr(cls, "__match_args__", ())
            if len(ma) < n:
                raise PyExc(mk_exc(TypeError, "too many positional sub-patterns"))
            attrs = list(ma[:n])
    attrs += list(names)
    vals = []
    simple = True
    for a in attrs:
        if a is None:
            vals.append(subj)
            continue
        try:
            vals.append(m.getattr(subj, a))
        except Tail:
            simple = False
            break
        except PyExc as e:
            if issubclass(e.obj.cls, AttributeError):
                del f.stack[-3:]
                f.stack.append(None)
                return
            raise
    del f.stack[-3:]
    if simple:
        f.stack.append(tuple(vals))
        return
    from . import prelude
    raise Tail(prelude.pv_match_attrs, (subj, tuple(attrs)))


@op("MATCH_SEQUENCE")
def _ms(m, f, i):
    v = m.force(f.stack[-1])
    f.stack[-1] = v
    if isinstance(v, (tuple, VList, range)) or (isinstance(v, SSeq) and v.kind != "str"):
        f.stack.append(True)
    elif isinstance(v, Obj):
        import collections.abc
        f.stack.append(issubclass(v.cls, collections.abc.Sequence))
    elif isinstance(v, Sym) and v.sort == "V":
        f.stack.append(mkbool(z3.Or(V.is_vtup(v.t), V.is_vlist(v.t))))
    else:
        f.stack.append(False)


@op("MATCH_MAPPING")
def _mm(m, f, i):
    f.stack.append(isinstance(f.stack[-1], VDict))


@op("GET_LEN")
def _gl(m, f, i):
    v = f.stack[-1]
    if isinstance(v, Obj):
        raise Tail(lookup_cls(v.cls, "__len__")[0], (v,))
    if isinstance(v, Sym):
        v = SSeq(z3.If(V.is_vtup(v.t), V.tq(v.t), V.lq(v.t)))
    f.stack.append(seqlen(v))


# ------------------------------------------------------------------ operators
@op("IS_OP")
def _is(m, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    r = identical(m, a, b)
    if i.arg:
        r = (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))
    f.stack.append(r)


def identical(m, a, b):
    if a is b:
        return True
    if isinstance(a, VMethod) and isinstance(b, VMethod):
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and x.sort == "V":
            if y is None:
                if x.ty is not None and not m.st.may_be_none(x.ty):
                    return False
                return mkbool(x.t == V.vnone)
            if isinstance(y, Sym):
                return mkbool(embed(x) == embed(y))
            if isinstance(y, (bool, int, str)):
                return mkbool(x.t == embed(y))
            if type(y) is object and m.st.is_external(x.t):
                return False
            try:
                return mkbool(x.t == embed(y))
            except Unsupported:
                return False
        if isinstance(x, Sym) and x.sort == "B" and isinstance(y, bool):
            return mkbool(x.t == z3.BoolVal(y))
    if isinstance(a, Sym) and isinstance(b, Sym) and a.sort == b.sort:
        return mkbool(a.t == b.t)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    if isinstance(a, (SSeq, tuple)) and isinstance(b, (SSeq, tuple)) and not (isinstance(a, tuple) and isinstance(b, tuple)):
        raise Unsupported("identity of sequences")
    if isinstance(a, Obj) or isinstance(b, Obj):
        return False
    if is_conc(a) and is_conc(b):
        return a is b or (type(a) is type(b) and isinstance(a, (int, str)) and a == b)
    return False


def ordterm(m, v):
    if is_num(v):
        return iterm(v)
    t = embed(v)
    if isinstance(v, Sym) and v.sort == "V":
        o = T.ord_uf(t)
        m.st.fact(T.unord_uf(o) == t)
        m.st.fact(z3.Implies(V.is_vint(t), o == V.vi(t)))
        return o
    if isinstance(v, str):
        o = T.ord_uf(t)
        m.st.fact(T.unord_uf(o) == t)
        return o
    raise Unsupported(f"ordering of {type(v).__name__}")


CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def has_obj(v):
    if isinstance(v, (Obj, VDict, VSet, VFunc, VGen, VMethod, VIter, BNat)):
        return True
    if isinstance(v, tuple):
        return any(has_obj(x) for x in v)
    if isinstance(v, VList) and v.items is not None:
        return any(has_obj(x) for x in v.items)
    return False


def compare(m, o, a, b):
    from . import prelude
    a, b = m.force(a), m.force(b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        raise Tail(prelude.CMP[o], (a, b))
    if o in ("==", "!="):
        r = equal(m, a, b)
        if o == "!=":
            r = (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))
        return r
    if is_conc(a) and is_conc(b):
        return m.native(CMP[o], (a, b), {})
    seqs = (tuple, VList, SSeq)
    if isinstance(a, seqs) and isinstance(b, seqs):
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Tail(prelude.TUPCMP[o], (a, b))
        raise Unsupported("ordering of symbolic sequences")
    m.st.assume_note("user values compared with < are totally ordered, consistently with ==")
    x, y = ordterm(m, a), ordterm(m, b)
    return mkbool(CMP[o](x, y))


def equal(m, a, b):
    from . import prelude
    if a is b and not isinstance(a, float):
        return True
    if is_conc(a) and is_conc(b):
        return m.native(operator.eq, (a, b), {})
    if is_num(a) and is_num(b):
        return mkbool(iterm(a) == iterm(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if has_obj(a) or has_obj(b):
            raise Tail(prelude.pv_tup_eq, (a, b))
        return mkbool(z3.And(*[_eqt(m, x, y) for x, y in zip(a, b)]))
    if isinstance(a, VList) and isinstance(b, VList):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            if has_obj(a) or has_obj(b):
                raise Tail(prelude.pv_tup_eq, (tuple(a.items), tuple(b.items)))
        return mkbool(seqterm(a) == seqterm(b))
    if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)):
        ka = "tuple" if isinstance(a, tuple) else a.kind
        kb = "tuple" if isinstance(b, tuple) else b.kind
        if ka != kb:
            return False
        return mkbool(seqterm(a) == seqterm(b))
    if isinstance(a, SSeq) and a.kind == "str" and isinstance(b, str) or isinstance(b, SSeq) and b.kind == "str" and isinstance(a, str):
        return mkbool(seqterm(a) == seqterm(b))
    if isinstance(a, Sym) or isinstance(b, Sym):
        m.st.assume_note("== on opaque user values is an equivalence that agrees with substitution")
        try:
            x, y = embed(a), embed(b)
        except Unsupported:
            return False
        if m.st.ex.loose and opaque(a) and opaque(b):
            # values may be equal to each other without being the same
            q = uf("pyeq", T.V, T.V, T.B)
            return mkbool(z3.Or(x == y, z3.And(q(x, y), q(y, x), T.hash_uf(x) == T.hash_uf(y))))
        return mkbool(x == y)
    if isinstance(a, VDict) and isinstance(b, VDict):
        if set(a.d) != set(b.d):
            return False
        ks = list(a.d)
        return equal(m, tuple(a.d[k] for k in ks), tuple(b.d[k] for k in ks))
    if isinstance(a, VMethod) and isinstance(b, VMethod):
        return a.self is b.self and a.fn is b.fn
    return False


def opaque(v):
    return isinstance(v, Sym) and v.sort == "V" and (v.ty is None or isinstance(v.ty, lang.AnyT))


def _eqt(m, x, y):
    r = equal(m, x, y)
    return z3.BoolVal(r) if isinstance(r, bool) else r.t


@op("COMPARE_OP")
def _cmp(m, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    f.stack.append(compare(m, i.argval, a, b))


@op("CONTAINS_OP")
def _co(m, f, i):
    c = f.stack.pop()
    x = f.stack.pop()
    neg = bool(i.arg)
    from . import prelude
    c = m.force(c)
    if isinstance(c, Obj):
        meth, _ = lookup_cls(c.cls, "__contains__")
        if meth is not None:
            raise Tail(meth, (c, x), ret=("not",) if neg else ("bool",))
        raise Tail(prelude.pv_contains, (c, x), ret=("not",) if neg else ("bool",))
    if isinstance(c, (VDict, VSet)):
        r = hkey(x, isinstance(c, VSet)) in c.d
    elif isinstance(c, str) and isinstance(x, str):
        r = x in c
    elif is_conc(c) and is_conc(x) and not isinstance(c, (tuple,)):
        r = m.native(operator.contains, (c, x), {})
    elif isinstance(c, SSeq) and c.kind == "str":
        if not (isinstance(x, str) and len(x) == 1 or isinstance(x, Sym) and isinstance(x.ty, lang.CharT)):
            raise Unsupported("substring test")
        r = mkbool(z3.Contains(c.t, z3.Unit(embed(x))))
    elif isinstance(c, str) and isinstance(x, Sym) and isinstance(x.ty, lang.CharT):
        r = mkbool(z3.Or(*[embed(x) == embed(ch) for ch in c]))
    else:
        raise Tail(prelude.pv_contains, (c, x), ret=("not",) if neg else ("bool",))
    if neg:
        r = (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))
    f.stack.append(r)


@op("UNARY_NOT")
def _un(m, f, i):
    v = m.force(f.stack[-1])
    try:
        b = m.truth(v)
    except Tail as t:
        f.i -= 1
        raise Tail(t.fn, t.args, t.kw, ("retry",))
    f.stack[-1] = (not b) if isinstance(b, bool) else mkbool(z3.Not(b.t))


def unary(m, o, v):
    v = m.force(v)
    if is_num(v):
        if isinstance(v, (int, bool)):
            return {"-": operator.neg, "+": operator.pos, "~": operator.invert}[o](v)
        t = iterm(v)
        return mkint({"-": -t, "+": t, "~": -t - 1}[o])
    if isinstance(v, Obj):
        raise Tail(m.getattr(v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[o]), ())
    if is_conc(v):
        return m.native({"-": operator.neg, "+": operator.pos, "~": operator.invert}[o], (v,), {})
    return Sym("V", uf("un" + o, T.V, T.V)(embed(v)))


@op("UNARY_NEGATIVE")
def _uneg(m, f, i):
    f.stack.append(unary(m, "-", f.stack.pop()))


@op("UNARY_INVERT")
def _uinv(m, f, i):
    f.stack.append(unary(m, "~", f.stack.pop()))


NB = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "|": "or", "&": "and",
      "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}
NATOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
         "%": operator.mod, "**": operator.pow, "|": operator.or_, "&": operator.and_, "^": operator.xor,
         "<<": operator.lshift, ">>": operator.rshift, "@": operator.matmul}


def binop(m, o, a, b, inplace=False):
    from . import prelude
    a, b = m.force(a), m.force(b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        raise Tail(prelude.pv_binop, (NB[o], a, b, inplace))
    if is_conc(a) and is_conc(b):
        return m.native(NATOP[o], (a, b), {})
    if is_num(a) and is_num(b):
        x, y = iterm(a), iterm(b)
        if o == "+":
            return mkint(x + y)
        if o == "-":
            return mkint(x - y)
        if o == "*":
            return mkint(x * y)
        if o in ("//", "%"):
            if m.decide(mkbool(y == 0)):
                raise PyExc(mk_exc(ZeroDivisionError))
            if isinstance(b, int) and b > 0:
                return mkint(x / y if o == "//" else x % y)
            raise Unsupported("division by a symbolic or negative integer")
        if o in ("&", "|", "^") and isinstance(a, (Sym, bool)) and isinstance(b, (Sym, bool)):
            tb = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
            if all(isinstance(v, bool) or v.sort == "B" for v in (a, b)):
                return mkbool({"&": z3.And, "|": z3.Or, "^": z3.Xor}[o](tb(a), tb(b)))
        if o in ("<<", ">>") and isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 64:
            return mkint(x * 2 ** b if o == "<<" else x / z3.IntVal(2 ** b))
        if o in ("&", "|", "^"):
            # congruence only
            return mkint(uf({"&": "int_and", "|": "int_or", "^": "int_xor"}[o], T.I, T.I, T.I)(x, y))
        raise Unsupported(f"integer operator {o}")
    tups = (tuple, SSeq)
    if o == "+":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, tups) and isinstance(b, tups):
            ka = "tuple" if isinstance(a, tuple) else a.kind
            kb = "tuple" if isinstance(b, tuple) else b.kind
            if ka != kb:
                raise PyExc(mk_exc(TypeError, "can only concatenate the same kind of sequence"))
            return SSeq(z3.simplify(z3.Concat(seqterm(a), seqterm(b))), ka, M.lub(M.seq_ty(a), M.seq_ty(b)))
        if isinstance(a, VList) and isinstance(b, VList):
            if inplace:
                M.natives.list_extend(m, a, b, ret=None)
                return a
            if a.items is not None and b.items is not None:
                return VList(a.items + b.items)
            return VList(None, z3.simplify(z3.Concat(seqterm(a), seqterm(b))), M.lub(M.seq_ty(a), M.seq_ty(b)))
        if isinstance(a, VList) and inplace:
            raise Tail(prelude.pv_list_iadd, (a, b))
    if o == "*" and isinstance(a, (tuple, VList)) and isinstance(b, int):
        if isinstance(a, tuple):
            return a * b
        if a.items is not None:
            return VList(a.items * b)
    if o == "*" and isinstance(b, (tuple, VList)) and isinstance(a, int):
        return binop(m, o, b, a)
    if isinstance(a, (str,)) and o == "%":
        return m.opaque_str("pct", [a, b])
    if isinstance(a, VDict) and isinstance(b, VDict) and o == "|":
        return VDict({**a.d, **b.d})
    if isinstance(a, VSet) and isinstance(b, VSet):
        if o == "|":
            return VSet({**a.d, **b.d})
        if o == "&":
            return VSet({k: v for k, v in a.d.items() if k in b.d})
        if o == "-":
            return VSet({k: v for k, v in a.d.items() if k not in b.d})
    if isinstance(a, Sym) or isinstance(b, Sym):
        m.st.assume_note("operators on opaque user values are pure functions that do not raise")
        return Sym("V", uf(f"op{o}", T.V, T.V, T.V)(embed(a), embed(b)))
    raise PyExc(mk_exc(TypeError, f"unsupported operand types for {o}"))


@op("BINARY_OP")
def _bo(m, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    o = i.argrepr
    inplace = o.endswith("=")
    f.stack.append(binop(m, o.rstrip("=") if inplace else o, a, b, inplace))


# ------------------------------------------------------------------ subscripts
def norm_index(m, idx, n):
    """index term normalised; raises IndexError when out of range"""
    t = iterm(idx)
    nn = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
    if not m.decide(mkbool(z3.And(t < nn, t >= -nn))):
        raise PyExc(mk_exc(IndexError, "index out of range"))
    if m.decide(mkbool(t < 0)):
        return mkint(t + nn)
    return mkint(t)


def slice_bounds(m, sl, n):
    nt = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)

    def clip(v, default):
        if v is None:
            return default
        t = iterm(v)
        return z3.If(t < 0, z3.If(t + nt < 0, z3.IntVal(0), t + nt), z3.If(t > nt, nt, t))

    lo = clip(sl.lo, z3.IntVal(0))
    hi = clip(sl.hi, nt)
    ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    return z3.simplify(lo), z3.simplify(ln)


def none_of(m, v):
    if isinstance(v, Sym) and v.sort == "V":
        if m.decide(mkbool(v.t == V.vnone)):
            return None
        return Sym("I", V.vi(v.t))
    return v


def getslice(m, v, sl):
    sl = VSlice(none_of(m, sl.lo), none_of(m, sl.hi), none_of(m, sl.step))
    if all(x is None or isinstance(x, int) for x in (sl.lo, sl.hi, sl.step)):
        py = slice(sl.lo, sl.hi, sl.step)
        if isinstance(v, tuple) or isinstance(v, str) or isinstance(v, range):
            return v[py]
        if isinstance(v, VList) and v.items is not None:
            return VList(v.items[py])
    if sl.step not in (None, 1):
        if isinstance(sl.step, int) and sl.step == -1 and sl.lo is None and sl.hi is None:
            ln = z3.Length(seqterm(v))
            r = uf("rev", T.Q, T.Q)(seqterm(v))
            m.st.fact(z3.Length(r) == ln)
            if isinstance(v, VList):
                return VList(None, r, M.seq_ty(v))
            return SSeq(r, "tuple" if isinstance(v, tuple) else v.kind, M.seq_ty(v) if not isinstance(v, str) else None)
        lift = lambda x: embed(x)
        r = uf("slice_step", T.Q, T.V, T.V, T.V, T.Q)(seqterm(v), lift(sl.lo), lift(sl.hi), lift(sl.step))
        if isinstance(v, VList):
            return VList(None, r, M.seq_ty(v))
        return SSeq(r, "tuple" if isinstance(v, tuple) else v.kind, M.seq_ty(v) if not isinstance(v, str) else None)
    t = seqterm(v)
    lo, ln = slice_bounds(m, sl, z3.Length(t))
    r = z3.simplify(z3.SubSeq(t, lo, ln))
    if isinstance(v, VList):
        return VList(None, r, M.seq_ty(v))
    return SSeq(r, "tuple" if isinstance(v, tuple) else v.kind, M.seq_ty(v) if not isinstance(v, str) else None)


def subscr(m, c, k):
    c = m.force(c)
    if isinstance(c, Obj):
        meth, _ = lookup_cls(c.cls, "__getitem__")
        if meth is None:
            raise PyExc(mk_exc(TypeError, f"'{c.cls.__name__}' object is not subscriptable"))
        raise Tail(meth, (c, k))
    if isinstance(k, slice):
        k = VSlice(k.start, k.stop, k.step)
    if isinstance(k, VSlice) and isinstance(c, (tuple, SSeq, VList, str, range)):
        return getslice(m, c, k)
    if isinstance(c, VDict):
        kk = hkey(k)
        if kk not in c.d:
            raise PyExc(mk_exc(KeyError, k))
        return c.d[kk]
    if isinstance(c, (tuple, str, VList, range)) and not (isinstance(c, VList) and c.items is None):
        items = c.items if isinstance(c, VList) else c
        if isinstance(k, (int, bool)):
            try:
                return m.lift(items[k])
            except IndexError:
                raise PyExc(mk_exc(IndexError, "index out of range"))
        if isinstance(k, Sym):
            t = iterm(k)
            for j in range(-len(items), len(items)):
                if m.decide(mkbool(t == j)):
                    return items[j]
            raise PyExc(mk_exc(IndexError, "index out of range"))
        raise PyExc(mk_exc(TypeError, "indices must be integers"))
    if isinstance(c, (SSeq, VList)):
        if not is_num(k):
            if isinstance(k, Sym):
                raise Unsupported("opaque index")
            raise PyExc(mk_exc(TypeError, "indices must be integers"))
        j = norm_index(m, k, z3.Length(c.t))
        return m.elem(c.t[iterm(j)], c.ty)
    if isinstance(c, Sym) and c.sort == "V":
        if m.decide(mkbool(V.is_vtup(c.t))):
            return subscr(m, SSeq(V.tq(c.t)), k)
        raise Unsupported("subscript of an opaque value")
    if isinstance(c, type) or hasattr(c, "__origin__") or hasattr(c, "__class_getitem__"):
        if is_conc(k):
            try:
                return c[k]
            except TypeError:
                return c
        return c
    if is_conc(c) and is_conc(k):
        return m.native(operator.getitem, (c, k), {})
    raise Unsupported(f"subscript of {type(c).__name__}")


@op("BINARY_SUBSCR")
def _bsub(m, f, i):
    k = f.stack.pop()
    c = f.stack.pop()
    f.stack.append(subscr(m, c, k))


@op("BINARY_SLICE")
def _bslice(m, f, i):
    hi = f.stack.pop()
    lo = f.stack.pop()
    c = m.force(f.stack.pop())
    if isinstance(c, Obj):
        raise Tail(lookup_cls(c.cls, "__getitem__")[0], (c, VSlice(lo, hi)))
    if is_conc(c) and not isinstance(c, (tuple, str)):
        l = m.lift(c)
        if l is c:
            f.stack.append(m.native(operator.getitem, (c, slice(lo, hi)), {}))
            return
        c = l
    if isinstance(c, Sym):
        f.stack.append(subscr(m, c, VSlice(lo, hi)))
        return
    f.stack.append(getslice(m, c, VSlice(lo, hi)))


def setslice(m, c, k, v):
    """c[lo:hi] = v for a list c and a list or tuple v"""
    if none_of(m, k.step) not in (None, 1):
        raise Unsupported("extended slice assignment")
    v = m.force(v)
    if not isinstance(v, (tuple, SSeq, VList)) or isinstance(v, SSeq) and v.kind == "str":
        raise Unsupported("slice assignment from something that is not a list or tuple")
    k = VSlice(none_of(m, k.lo), none_of(m, k.hi))
    items = v if isinstance(v, tuple) else v.items if isinstance(v, VList) else None
    if c.items is not None and items is not None and all(x is None or isinstance(x, int) for x in (k.lo, k.hi)):
        c.items[k.lo:k.hi] = list(items)
        return
    t, q = seqterm(c), seqterm(v)
    lo, ln = slice_bounds(m, k, z3.Length(t))
    c.t = z3.simplify(z3.Concat(z3.SubSeq(t, 0, lo), q, z3.SubSeq(t, lo + ln, z3.Length(t) - lo - ln)))
    c.items = None


def store_subscr(m, c, k, v):
    if isinstance(c, Obj):
        meth, _ = lookup_cls(c.cls, "__setitem__")
        if meth is None:
            raise PyExc(mk_exc(TypeError, "object does not support item assignment"))
        raise Tail(meth, (c, k, v), ret=("drop",))
    if isinstance(c, VDict):
        c.d[hkey(k)] = v
        return
    if isinstance(c, VList):
        if isinstance(k, VSlice):
            return setslice(m, c, k, v)
        if c.items is not None and isinstance(k, int):
            try:
                c.items[k] = v
            except IndexError:
                raise PyExc(mk_exc(IndexError, "assignment index out of range"))
            return
        t = seqterm(c)
        j = iterm(norm_index(m, k, z3.Length(t)))
        e = embed(v)
        c.t = z3.simplify(z3.Concat(z3.SubSeq(t, 0, j), z3.Unit(e), z3.SubSeq(t, j + 1, z3.Length(t) - j - 1)))
        c.items = None
        return
    if isinstance(c, (tuple, SSeq, str)):
        raise PyExc(mk_exc(TypeError, "object does not support item assignment"))
    raise Unsupported(f"item assignment on {type(c).__name__}")


@op("STORE_SUBSCR")
def _ssub(m, f, i):
    k = f.stack.pop()
    c = f.stack.pop()
    v = f.stack.pop()
    store_subscr(m, c, k, v)


@op("STORE_SLICE")
def _sslice(m, f, i):
    hi = f.stack.pop()
    lo = f.stack.pop()
    c = m.force(f.stack.pop())
    store_subscr(m, c, VSlice(lo, hi), f.stack.pop())


@op("DELETE_SUBSCR")
def _dsub(m, f, i):
    k = f.stack.pop()
    c = f.stack.pop()
    if isinstance(c, Obj):
        raise Tail(lookup_cls(c.cls, "__delitem__")[0], (c, k), ret=("drop",))
    if isinstance(c, VDict):
        if hkey(k) not in c.d:
            raise PyExc(mk_exc(KeyError, k))
        del c.d[hkey(k)]
        return
    if isinstance(c, VList):
        if c.items is not None and isinstance(k, int):
            try:
                del c.items[k]
            except IndexError:
                raise PyExc(mk_exc(IndexError, "index out of range"))
            return
        if isinstance(k, VSlice):
            return setslice(m, c, k, ())
        t = seqterm(c)
        j = iterm(norm_index(m, k, z3.Length(t)))
        c.t = z3.simplify(z3.Concat(z3.SubSeq(t, 0, j), z3.SubSeq(t, j + 1, z3.Length(t) - j - 1)))
        c.items = None
        return
    raise Unsupported("DELETE_SUBSCR")

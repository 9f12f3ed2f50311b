"""Threads inside one machine: `lang.interleave` runs several thunks as threads of one program under every schedule.

A context switch can happen before every instruction of repository code that touches state another thread could change
(attributes that are rebound after construction, captured variables that are rebound, containers, locks and objects of
the environment).  Every other instruction commutes with the steps of the other threads.  The schedule is symbolic: the
k-th switch decision is an unconstrained input, so that all schedules are explored."""
from __future__ import annotations

import dis
import os
import threading
import types

import z3

from . import lang, prelude
from . import vm as M
from .natives import NATIVES, SPECIAL, nat
from .vm import AbsFun, BNat, Fork, Obj, PyExc, Sym, Unsupported, VCell, VDict, VFunc, VIter, VList, VMethod, VSet, mk_exc

REPO = os.path.realpath(os.environ.get("PV_REPO", "/repo")) + os.sep


class Redundant(Exception):
    """the schedule differs from an explored one only in the order of independent steps"""


class Block(Exception):
    """the running thread has to wait for a lock"""


class Par:
    def __init__(self, base, ret, n):
        self.base, self.ret = base, ret
        self.frames = [[] for _ in range(n)]
        self.out = [None] * n
        self.blocked = [False] * n
        self.cur = 0
        self.k = 0
        self.fresh = True     # the pending instruction of the running thread has been scheduled
        # sleep sets: the access a preempted thread was about to make; going on with the thread before another thread made a
        # conflicting access would repeat, up to commuting steps, a schedule that is explored anyway
        self.sleep = [None] * n

    def clone(self, cl):
        p = Par.__new__(Par)
        p.base = [cl(f) for f in self.base]
        p.ret = cl(self.ret)
        p.frames = [[cl(f) for f in fs] for fs in self.frames]
        p.out = [cl(o) for o in self.out]
        p.blocked = list(self.blocked)
        p.cur, p.k, p.fresh = self.cur, self.k, self.fresh
        p.sleep = [cl(x) for x in self.sleep]
        return p


def interleave(m, fn, args, kw, ret):
    if m.par is not None:
        raise Unsupported("nested interleave")
    fs = args
    p = Par(m.frames, ret, len(fs))
    m.par = p
    for j, g in enumerate(fs):
        # every thread starts with a frame of its own
        m.frames = p.frames[j]
        m.push_frame(prelude.pv_thread, (g,), {}, ("thread",))
    m.frames = p.frames[0]


SPECIAL[lang.interleave] = interleave


@nat(threading.get_ident)
def _ident(m, a, kw):
    return 1000 if m.par is None else m.par.cur + 1


def finish(m, o):
    """the running thread ended with outcome o"""
    p = m.par
    p.out[p.cur] = o
    rest = [j for j, x in enumerate(p.out) if x is None]
    if rest:
        return resume(m, rest)
    m.par = None
    m.frames = p.base
    m.deliver(p.ret, tuple(p.out))


def resume(m, js):
    """goes on with one of the threads js"""
    p = m.par
    ready = [j for j in js if not p.blocked[j]]
    if not ready:
        m.par = None
        m.frames = p.base
        m.raise_at_boundary(p.ret, mk_exc(RuntimeError, "deadlock"))
        return
    awake = [j for j in ready if p.sleep[j] is None]
    if not awake:
        raise Redundant()
    to(m, awake[0])
    p.fresh = False


def to(m, j):
    p = m.par
    p.cur = j
    m.frames = p.frames[j]
    p.fresh = True


def conflict(a, b):
    return a[0] is b[0] and a[1] == b[1] and (a[2] or b[2])


def schedule(m, f, ins):
    """True when another thread runs instead"""
    p = m.par
    acc = point(m, f, ins)
    if p.fresh:
        p.fresh = False
    elif acc is not None:
        o = acc[0]
        if isinstance(o, Obj) and o.cls is prelude.pv_RLock and o.attrs["count"] and o.attrs["owner"] != p.cur + 1:
            return False      # the thread has to wait anyway
        t = None
        for j, o in enumerate(p.out):
            if j == p.cur or o is not None or p.blocked[j] or p.sleep[j] is not None:
                continue
            c = z3.Bool(f"switch!{p.k}!{j}")
            v = m.st.known.get(c.get_id())
            if v is None:
                m.st.ex.bounds.add("threads: the listed numbers of concurrent operations, every schedule of their accesses to shared state")
                raise Fork(c)
            if v[1]:
                t = j
                break
        p.k += 1
        if t is not None:
            p.sleep[p.cur] = acc
            to(m, t)
            return True
    if acc is not None:
        for j, a in enumerate(p.sleep):
            if a is not None and conflict(a, acc):
                p.sleep[j] = None
    return False


def block(m):
    """the running thread cannot go on before a lock is released"""
    p = m.par
    if p is None:
        raise PyExc(mk_exc(RuntimeError, "deadlock"))
    p.blocked[p.cur] = True
    resume(m, [j for j, o in enumerate(p.out) if o is None])


# ------------------------------------------------------------------ switch points
_FILE = {}


def written(fn):
    """names of attributes and captured variables the file rebinds after construction"""
    r = _FILE.get(fn)
    if r is None:
        attrs, cells, glob = set(), set(), set()

        def walk(co):
            for i in dis.get_instructions(co):
                if i.opname in ("STORE_ATTR", "DELETE_ATTR") and co.co_name != "__init__":
                    attrs.add(i.argval)
                if i.opname in ("STORE_DEREF", "DELETE_DEREF") and i.argval in co.co_freevars:
                    cells.add(i.argval)
                if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    glob.add(i.argval)
            for c in co.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)
        walk(compile(open(fn).read(), fn, "exec", dont_inherit=True))
        r = _FILE[fn] = (attrs, cells, glob)
    return r


def shared(o, w=True):
    """the access to an object as a whole; objects of the environment count as one location"""
    if isinstance(o, (VDict, VList, VSet)) or isinstance(o, Obj) and o.cls is prelude.pv_RLock:
        return (o, None, w)
    if isinstance(o, Obj) and not (o.cls.__module__ or "").startswith("expression"):
        return ("environment", None, True)
    return None


def cell(f, n):
    c = f.loc.get(n)
    if not isinstance(c, VCell):
        i = f.ci.co.co_freevars.index(n) if n in f.ci.co.co_freevars else -1
        c = f.closure[i] if i >= 0 else None
    return c


def point(m, f, ins):
    """the access to shared state (location, part, writes) the instruction makes, if any"""
    co = f.ci.co
    if not co.co_filename.startswith(REPO):
        return None
    n, s = ins.opname, f.stack
    if n in ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR"):
        if co.co_name == "__init__" or not isinstance(s[-1], Obj) or ins.argval not in written(co.co_filename)[0]:
            return None
        return (s[-1], ins.argval, n != "LOAD_ATTR")
    if n in ("LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF"):
        return (cell(f, ins.argval), None, n != "LOAD_DEREF") if ins.argval in written(co.co_filename)[1] else None
    if n == "BEFORE_WITH":
        return shared(s[-1])
    if n == "BINARY_SUBSCR":
        return shared(s[-2], False)
    if n in ("STORE_SUBSCR", "DELETE_SUBSCR"):
        return shared(s[-2])
    if n in ("GET_ITER", "CONTAINS_OP", "GET_LEN"):
        return shared(s[-1], False)
    if n == "FOR_ITER":
        return shared(s[-1].seq, False) if isinstance(s[-1], VIter) and isinstance(s[-1].seq, VList) else None
    if n in ("STORE_GLOBAL", "DELETE_GLOBAL"):
        return (ins.argval, "global", True)
    if n == "LOAD_GLOBAL":
        return (ins.argval, "global", False) if ins.argval in written(co.co_filename)[2] else None
    if n == "CALL":
        k = ins.arg
        a, b = s[-k - 1], s[-k - 2]
        fn = b if b is not M.NULL else a
        if isinstance(fn, VMethod) and isinstance(fn.self, Obj):
            if fn.self.cls is prelude.pv_RLock and getattr(fn.fn, "__name__", "") in ("__exit__", "release"):
                return None
            return shared(fn.self)
        if isinstance(fn, BNat):
            # the arguments may be (views of) shared containers, too
            return shared(fn.self)
        if isinstance(fn, (AbsFun, Sym)) or isinstance(fn, Obj) or isinstance(fn, VFunc) and not fn.code.co_filename.startswith(REPO):
            return ("environment", None, True)
        return None
    return None


# ------------------------------------------------------------------ locks
@nat(prelude._lock)
def _lock(m, a, kw):
    o, blocking = a[0], a[1]
    me = 0 if m.par is None else m.par.cur + 1
    own, cnt = o.attrs["owner"], o.attrs["count"]
    if cnt == 0:
        o.attrs["owner"], o.attrs["count"] = me, 1
        return True
    if own == me and o.attrs["reentrant"]:
        o.attrs["count"] = cnt + 1
        return True
    if blocking is False:
        return False
    raise Block()


@nat(prelude._unlock)
def _unlock(m, a, kw):
    o = a[0]
    me = 0 if m.par is None else m.par.cur + 1
    if o.attrs["count"] == 0 or o.attrs["reentrant"] and o.attrs["owner"] != me:
        raise PyExc(mk_exc(RuntimeError, "cannot release un-acquired lock"))
    o.attrs["count"] -= 1
    if o.attrs["count"] == 0:
        o.attrs["owner"] = 0
        if m.par is not None:
            m.par.blocked = [False] * len(m.par.blocked)
    return None

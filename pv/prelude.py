"""Builtins written in Python and interpreted by the VM (trusted models of the real builtins)."""


# ---- primitives implemented by the VM
def _freeze(l): raise NotImplementedError
def _pymeth(o, name): raise NotImplementedError
def _reflected_first(a, b): raise NotImplementedError
def _prim_eq(a, b): raise NotImplementedError
def _ident(a, b): raise NotImplementedError
def _opaque_str(w, *a): raise NotImplementedError
def _clsname(o): raise NotImplementedError
def _prim_iter(o): raise NotImplementedError
def _resume(g, v, e=None): raise NotImplementedError
def _sort_uf(seq, keys, rev): raise NotImplementedError
def _is_concrete_seq(s): raise NotImplementedError
def _is_symint(s): raise NotImplementedError
def _mkseqiter(s, back): raise NotImplementedError
def _is_seq(s): raise NotImplementedError
def _is_obj(s): raise NotImplementedError
def _agg(name, s, *a): raise NotImplementedError
def _hash_combine(a, b): raise NotImplementedError
def _setattr_raw(o, n, v): raise NotImplementedError
def _delattr_raw(o, n): raise NotImplementedError
def _list_assign(o, s): raise NotImplementedError
def _gen_state(g): raise NotImplementedError
def _mk_anext(g, e): raise NotImplementedError
def _deepcopy_opaque(x): raise NotImplementedError
def _drain(it): raise NotImplementedError
def _fits(seq, lo, hi): raise NotImplementedError
def _unsupported(why): raise NotImplementedError
def _lock(l, blocking): raise NotImplementedError
def _unlock(l): raise NotImplementedError
def _dict_part(d, kind): raise NotImplementedError
def _dict_iter(d, kind): raise NotImplementedError


def pv_ident(x):
    return x


def pv_setattr(o, n, v):
    f = _pymeth(o, "__setattr__")
    if f is not None:
        f(n, v)
    else:
        _setattr_raw(o, n, v)


def pv_delattr(o, n):
    f = _pymeth(o, "__delattr__")
    if f is not None:
        return f(n)
    _delattr_raw(o, n)


def pv_bool(o):
    return True if o else False


# ---- comparison
def pv_eq(a, b):
    if _reflected_first(a, b):
        f = _pymeth(b, "__eq__")
        if f is not None:
            r = f(a)
            if r is not NotImplemented:
                return r
    f = _pymeth(a, "__eq__")
    if f is not None:
        r = f(b)
        if r is not NotImplemented:
            return r
    f = _pymeth(b, "__eq__")
    if f is not None:
        r = f(a)
        if r is not NotImplemented:
            return r
    return _prim_eq(a, b)


def pv_ne(a, b):
    f = _pymeth(a, "__ne__")
    if f is not None:
        r = f(b)
        if r is not NotImplemented:
            return r
    return not pv_eq(a, b)


def _cmp(a, b, n1, n2):
    if _reflected_first(a, b):
        f = _pymeth(b, n2)
        if f is not None:
            r = f(a)
            if r is not NotImplemented:
                return r
    f = _pymeth(a, n1)
    if f is not None:
        r = f(b)
        if r is not NotImplemented:
            return r
    f = _pymeth(b, n2)
    if f is not None:
        r = f(a)
        if r is not NotImplemented:
            return r
    raise TypeError("unorderable")


def pv_lt(a, b):
    return _cmp(a, b, "__lt__", "__gt__")


def pv_gt(a, b):
    return _cmp(a, b, "__gt__", "__lt__")


def pv_le(a, b):
    return _cmp(a, b, "__le__", "__ge__")


def pv_ge(a, b):
    return _cmp(a, b, "__ge__", "__le__")


CMP = {"==": pv_eq, "!=": pv_ne, "<": pv_lt, ">": pv_gt, "<=": pv_le, ">=": pv_ge}


def pv_tup_eq(a, b):
    for i in range(len(a)):
        x, y = a[i], b[i]
        if not (x is y or x == y):
            return False
    return True


def pv_tup_lt(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if not (a[i] is b[i] or a[i] == b[i]):
            return a[i] < b[i]
    return len(a) < len(b)


def pv_tup_gt(a, b):
    return pv_tup_lt(b, a)


def pv_tup_le(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if not (a[i] is b[i] or a[i] == b[i]):
            return a[i] <= b[i]
    return len(a) <= len(b)


def pv_tup_ge(a, b):
    return pv_tup_le(b, a)


TUPCMP = {"<": pv_tup_lt, ">": pv_tup_gt, "<=": pv_tup_le, ">=": pv_tup_ge}


def pv_binop(name, a, b, inplace):
    if inplace:
        f = _pymeth(a, "__i" + name + "__")
        if f is not None:
            r = f(b)
            if r is not NotImplemented:
                return r
    f = _pymeth(a, "__" + name + "__")
    if f is not None:
        r = f(b)
        if r is not NotImplemented:
            return r
    f = _pymeth(b, "__r" + name + "__")
    if f is not None:
        r = f(a)
        if r is not NotImplemented:
            return r
    raise TypeError("unsupported operand type(s)")


def pv_contains(c, x):
    for y in c:
        if y is x or y == x:
            return True
    return False


def pv_repr(o):
    f = _pymeth(o, "__repr__")
    if f is not None:
        return f()
    return _opaque_str("repr", o)


def pv_str(o):
    f = _pymeth(o, "__str__")
    if f is not None:
        return f()
    return pv_repr(o)


def pv_match_attrs(o, names):
    vals = []
    for n in names:
        if n is None:
            vals.append(o)
            continue
        try:
            vals.append(getattr(o, n))
        except AttributeError:
            return None
    return tuple(vals)


def pv_hash_tuple(t):
    h = len(t)
    for x in t:
        h = _hash_combine(h, hash(x))
    return h


def pv_call_ex(fn, it, kw):
    return fn(*tuple(it), **kw)


# ---- materialisation
def pv_to_list(it):
    it = iter(it)
    acc = []
    r = _drain(it)
    if r is not None:
        acc.extend(r)
        return acc
    for x in it:
        acc.append(x)
    return acc


def pv_tuple(it):
    it = iter(it)
    r = _drain(it)
    if r is not None:
        return r
    acc = []
    for x in it:
        acc.append(x)
    return _freeze(acc)


def pv_list_extend(l, it):
    it = iter(it)
    r = _drain(it)
    if r is not None:
        l.extend(r)
        return None
    for x in it:
        l.append(x)


def pv_list_iadd(l, it):
    pv_list_extend(l, it)
    return l


def pv_dict(it, kw):
    d = {}
    for k, v in it:
        d[k] = v
    for k, v in kw.items():
        d[k] = v
    return d


def pv_set(it):
    s = set()
    for x in it:
        s.add(x)
    return s


def pv_join(sep, it):
    return sep.join(tuple(it))


def pv_index(seq, v):
    i = 0
    for x in seq:
        if x is v or x == v:
            return i
        i += 1
    raise ValueError("not in sequence")


def pv_seqcount(seq, v):
    n = 0
    for x in seq:
        if x is v or x == v:
            n += 1
    return n


def pv_list_remove(l, v):
    i = pv_index(l, v)
    del l[i]


# ---- iteration
def pv_iter(o):
    return _prim_iter(o)


class pv_iter2:
    def __init__(self, fn, sentinel):
        self.fn = fn
        self.sentinel = sentinel

    def __iter__(self):
        return self

    def __next__(self):
        x = self.fn()
        if x == self.sentinel:
            raise StopIteration
        return x


class pv_map:
    def __init__(self, f, it, *its):
        self.f = f
        self.it = iter(it)
        self.its = tuple([iter(x) for x in its])

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        if not self.its:
            return self.f(x)
        xs = [x]
        for y in self.its:
            xs.append(next(y))
        return self.f(*xs)


class pv_filter:
    def __init__(self, f, it):
        self.f = f
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        f = self.f
        for x in self.it:
            if f is None:
                if x:
                    return x
            elif f(x):
                return x
        raise StopIteration


class pv_zip:
    def __init__(self, *its, strict=False):
        self.its = tuple([iter(x) for x in its])

    def __iter__(self):
        return self

    def __next__(self):
        if not self.its:
            raise StopIteration
        xs = []
        for y in self.its:
            xs.append(next(y))
        return tuple(xs)


class pv_enumerate:
    def __init__(self, it, start=0):
        self.it = iter(it)
        self.n = start

    def __iter__(self):
        return self

    def __next__(self):
        x = next(self.it)
        n = self.n
        self.n = n + 1
        return (n, x)


def pv_reversed(o):
    f = _pymeth(o, "__reversed__")
    if f is not None:
        return f()
    if _is_seq(o):
        return _mkseqiter(o, True)
    return pv_rev_gen(o)


def pv_rev_gen(o):
    i = len(o) - 1
    while i >= 0:
        yield o[i]
        i -= 1


class pv_range:
    def __init__(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        self.a = a
        self.b = b
        self.step = step

    def __iter__(self):
        i = self.a
        b = self.b
        step = self.step
        if step > 0:
            while i < b:
                yield i
                i += step
        else:
            while i > b:
                yield i
                i += step

    def __len__(self):
        n = self.b - self.a
        if self.step == 1:
            return n if n > 0 else 0
        if self.step > 0:
            return (n + self.step - 1) // self.step if n > 0 else 0
        return (-n - self.step - 1) // -self.step if n < 0 else 0

    def __getitem__(self, i):
        n = len(self)
        if i < 0:
            i += n
        if i < 0 or i >= n:
            raise IndexError("range object index out of range")
        return self.a + i * self.step

    def __reversed__(self):
        i = len(self) - 1
        while i >= 0:
            yield self.a + i * self.step
            i -= 1


_RANGES = {"b": (-128, 127), "B": (0, 255), "h": (-32768, 32767), "H": (0, 65535), "i": (-2147483648, 2147483647), "I": (0, 4294967295),
           "l": (-9223372036854775808, 9223372036854775807), "L": (0, 18446744073709551615), "q": (-9223372036854775808, 9223372036854775807),
           "Q": (0, 18446744073709551615)}


class pv_array:
    """array.array of an integer element type (and 'd', whose elements are kept as they are)"""

    pv_kind = "array"

    def __init__(self, typecode, initializer=()):
        self.typecode = typecode
        if typecode in _RANGES and _fits(initializer, *_RANGES[typecode]):
            self.items = list(initializer)
            return
        self.items = []
        for x in initializer:
            self._ok(x)
            self.items.append(x)

    def _ok(self, x):
        if self.typecode == "f" or self.typecode == "d" or self.typecode == "u" or self.typecode == "w":
            _unsupported("array.array of floats or characters")
        lo, hi = _RANGES[self.typecode]
        if x < lo or x > hi:
            self._refuse()

    def _refuse(self):
        raise OverflowError("value out of range")

    def _foreign(self):
        raise TypeError("can only assign array to array slice")

    def _new(self, items):
        r = pv_array(self.typecode)
        r.items = items
        return r

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._new(self.items[k])
        return self.items[k]

    def __setitem__(self, k, x):
        if isinstance(k, slice):
            if getattr(x, "pv_kind", None) != self.pv_kind:
                self._foreign()
            elif x.typecode != self.typecode:
                raise TypeError("bad argument type for built-in operation")
            self.items[k] = x.items[:]
            return
        self._ok(x)
        self.items[k] = x

    def __delitem__(self, k):
        del self.items[k]

    def insert(self, i, x):
        self._ok(x)
        self.items.insert(i, x)

    def append(self, x):
        self._ok(x)
        self.items.append(x)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def pop(self, i=-1):
        return self.items.pop(i)

    def tolist(self):
        return self.items[:]

    def reverse(self):
        self.items.reverse()


class pv_bytearray(pv_array):
    pv_kind = "bytes"

    def __init__(self, initializer=()):
        pv_array.__init__(self, "B", initializer)

    def _refuse(self):
        raise ValueError("byte must be in range(0, 256)")

    def _foreign(self):
        _unsupported("slice assignment to a bytearray")

    def _new(self, items):
        r = pv_bytearray()
        r.items = items
        return r


def pv_sum(it, start=0):
    s = start
    for x in it:
        s = s + x
    return s


_MISSING = object()


def pv_min(*args, key=None, default=_MISSING):
    it = args[0] if len(args) == 1 else args
    first = True
    best = None
    bk = None
    for x in it:
        k = x if key is None else key(x)
        if first:
            best, bk, first = x, k, False
        elif k < bk:
            best, bk = x, k
    if first:
        if default is not _MISSING:
            return default
        raise ValueError("min() arg is an empty sequence")
    return best


def pv_max(*args, key=None, default=_MISSING):
    it = args[0] if len(args) == 1 else args
    first = True
    best = None
    bk = None
    for x in it:
        k = x if key is None else key(x)
        if first:
            best, bk, first = x, k, False
        elif k > bk:
            best, bk = x, k
    if first:
        if default is not _MISSING:
            return default
        raise ValueError("max() arg is an empty sequence")
    return best


def pv_any(it):
    for x in it:
        if x:
            return True
    return False


def pv_all(it):
    for x in it:
        if not x:
            return False
    return True


def pv_reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    for x in it:
        acc = f(acc, x)
    return acc


def pv_sorted(it, key=None, reverse=False):
    items = list(it)
    if key is None:
        return _sort_uf(items, items, reverse)
    keys = []
    for x in items:
        keys.append(key(x))
    return _sort_uf(items, keys, reverse)


def pv_list_sort(l, key=None, reverse=False):
    _list_assign(l, pv_sorted(l, key=key, reverse=reverse))


class pv_partial:
    def __init__(self, fn, /, *args, **kw):
        self.func = fn
        self.args = args
        self.keywords = kw

    def __call__(self, /, *args, **kw):
        return self.func(*self.args, *args, **{**self.keywords, **kw})


def pv_chain(*its):
    for it in its:
        for x in it:
            yield x


def pv_chain_from(its):
    for it in its:
        for x in it:
            yield x


def pv_islice(it, *args):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    if start is None:
        start = 0
    if step is None:
        step = 1
    if start < 0 or (stop is not None and stop < 0):
        raise ValueError("Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    if step != 1:
        raise NotImplementedError
    return pv_islice_gen(iter(it), start, stop)


def pv_islice_gen(it, start, stop):
    i = 0
    while i < start:
        if stop is not None and i >= stop:
            return
        try:
            next(it)
        except StopIteration:
            return
        i += 1
    if stop is None:
        for x in it:
            yield x
        return
    while i < stop:
        try:
            x = next(it)
        except StopIteration:
            return
        yield x
        i += 1


def pv_takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x


def pv_dropwhile(p, it):
    it = iter(it)
    for x in it:
        if not p(x):
            yield x
            break
    for x in it:
        yield x


def pv_accumulate(it, func=None, *, initial=None):
    it = iter(it)
    total = initial
    if initial is None:
        try:
            total = next(it)
        except StopIteration:
            return
    yield total
    for x in it:
        total = total + x if func is None else func(total, x)
        yield total


def pv_starmap(f, it):
    for x in it:
        yield f(*x)


def pv_count(start=0, step=1):
    n = start
    while True:
        yield n
        n += step


def pv_repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x


def pv_pairwise(it):
    it = iter(it)
    try:
        a = next(it)
    except StopIteration:
        return
    for b in it:
        yield (a, b)
        a = b


class pv_deque:
    def __init__(self, it=(), maxlen=None):
        if maxlen is not None:
            raise NotImplementedError
        self.l = list(it)

    def append(self, x):
        self.l.append(x)

    def popleft(self):
        return self.l.pop(0)

    def pop(self):
        return self.l.pop()

    def appendleft(self, x):
        self.l.insert(0, x)

    def extend(self, it):
        for x in it:
            self.l.append(x)

    def clear(self):
        self.l.clear()

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)

    def __getitem__(self, i):
        return self.l[i]


# ---- generators
def pv_gen_throw(g, e, *rest):
    if isinstance(e, type):
        e = e(*rest[:1])
    return _resume(g, None, e)


def pv_gen_close(g):
    try:
        _resume(g, None, GeneratorExit())
    except (GeneratorExit, StopIteration):
        return None
    raise RuntimeError("generator ignored GeneratorExit")


async def pv_agen_close(g):
    if _gen_state(g) in ("new", "done"):
        return None
    try:
        await _mk_anext(g, GeneratorExit())
    except (GeneratorExit, StopAsyncIteration):
        return None
    raise RuntimeError("async generator ignored GeneratorExit")


def pv_get_anext(o):
    a = o.__anext__()
    f = _pymeth(a, "__await__")
    if f is not None:
        return f()
    return a


def pv_aiter(o):
    return o.__aiter__()


async def pv_anext(o, *default):
    try:
        return await o.__anext__()
    except StopAsyncIteration:
        if default:
            return default[0]
        raise


# ---- copying
def pv_copy(o):
    f = _pymeth(o, "__copy__")
    if f is not None:
        return f()
    if _is_obj(o):
        raise NotImplementedError
    if isinstance(o, list):
        return o.copy()
    return o


def pv_deepcopy(o, memo):
    f = _pymeth(o, "__deepcopy__")
    if f is not None:
        return f(memo)
    if _is_obj(o):
        raise NotImplementedError
    if isinstance(o, tuple):
        acc = []
        for x in o:
            acc.append(pv_deepcopy(x, memo))
        return _freeze(acc)
    if isinstance(o, list):
        acc = []
        for x in o:
            acc.append(pv_deepcopy(x, memo))
        return acc
    return _deepcopy_opaque(o)


# ---------------------------------------------------------------- dictionaries
class pv_dictview:
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __iter__(self):
        return _dict_iter(self.d, self.kind)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return x in _dict_part(self.d, self.kind)

    def __reversed__(self):
        return reversed(_dict_part(self.d, self.kind))

    def __eq__(self, o):
        _unsupported("comparison of dictionary views")


# ---------------------------------------------------------------- threads
def pv_thread(f):
    return f()


class pv_RLock:
    def __init__(self, reentrant=True):
        self.owner = 0
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        return _lock(self, blocking)

    def release(self):
        _unlock(self)

    def __enter__(self):
        return _lock(self, True)

    def __exit__(self, t, v, tb):
        _unlock(self)


def pv_Lock():
    return pv_RLock(False)


class pv_Event:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if not self.flag:
            _unsupported("waiting for a threading.Event")
        return True


# ---------------------------------------------------------------- asyncio (after the pure Python sources of the standard library)
from asyncio import CancelledError as _Cancelled, Future as _Future, InvalidStateError as _Invalid  # noqa: E402

_LOOP = [None]


def pv_set_running_loop(l):
    _LOOP[0] = l


def pv_running_loop():
    return _LOOP[0]


def pv_get_running_loop():
    if _LOOP[0] is None:
        raise RuntimeError("no running event loop")
    return _LOOP[0]


class pv_Future:
    def __init__(self, *, loop=None):
        self._loop = pv_get_running_loop() if loop is None else loop
        self._state = "PENDING"
        self._result = None
        self._exception = None
        self._callbacks = []
        self._asyncio_future_blocking = False
        self._cancelled_exc = None

    def _make_cancelled_error(self):
        e = self._cancelled_exc
        if e is not None:
            self._cancelled_exc = None
            return e
        return _Cancelled()

    def get_loop(self):
        return self._loop

    def cancel(self, msg=None):
        if self._state != "PENDING":
            return False
        self._state = "CANCELLED"
        self._finish()
        return True

    def _finish(self):
        cbs, self._callbacks = self._callbacks, []
        for f in cbs:
            self._loop.call_soon(f, self)

    def cancelled(self):
        return self._state == "CANCELLED"

    def done(self):
        return self._state != "PENDING"

    def result(self):
        if self._state == "CANCELLED":
            raise self._make_cancelled_error()
        if self._state != "FINISHED":
            raise _Invalid("Result is not ready.")
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self):
        if self._state == "CANCELLED":
            raise self._make_cancelled_error()
        if self._state != "FINISHED":
            raise _Invalid("Exception is not set.")
        return self._exception

    def add_done_callback(self, fn, *, context=None):
        if self._state != "PENDING":
            self._loop.call_soon(fn, self)
        else:
            self._callbacks.append(fn)

    def remove_done_callback(self, fn):
        n = len(self._callbacks)
        self._callbacks = [f for f in self._callbacks if f != fn]
        return n - len(self._callbacks)

    def set_result(self, result):
        if self._state != "PENDING":
            raise _Invalid("invalid state")
        self._result = result
        self._state = "FINISHED"
        self._finish()

    def set_exception(self, exception):
        if self._state != "PENDING":
            raise _Invalid("invalid state")
        if isinstance(exception, type):
            exception = exception()
        if isinstance(exception, StopIteration):
            raise TypeError("StopIteration interacts badly with generators and cannot be raised into a Future")
        self._exception = exception
        self._state = "FINISHED"
        self._finish()

    def __await__(self):
        if self._state == "PENDING":
            yield self
        if self._state == "PENDING":
            raise RuntimeError("await wasn't used with future")
        return self.result()

    __iter__ = __await__


class pv_Task(pv_Future):
    def __init__(self, coro, *, loop=None, name=None, context=None, eager_start=False):
        pv_Future.__init__(self, loop=loop)
        self._coro = coro
        self._must_cancel = False
        self._waiter = None
        self._loop.call_soon(self._step)

    def get_coro(self):
        return self._coro

    def cancel(self, msg=None):
        if self._state != "PENDING":
            return False
        if self._waiter is not None and self._waiter.cancel():
            return True
        self._must_cancel = True
        return True

    def _step(self, exc=None):
        if self._must_cancel:
            if not isinstance(exc, _Cancelled):
                exc = _Cancelled()
            self._must_cancel = False
        self._waiter = None
        try:
            if exc is None:
                r = self._coro.send(None)
            else:
                r = self._coro.throw(exc)
        except StopIteration as e:
            if self._must_cancel:
                self._must_cancel = False
                pv_Future.cancel(self)
            else:
                pv_Future.set_result(self, e.value)
        except _Cancelled as e:
            self._cancelled_exc = e
            pv_Future.cancel(self)
        except Exception as e:
            pv_Future.set_exception(self, e)
        else:
            if isinstance(r, _Future):
                r.add_done_callback(self._wakeup)
                self._waiter = r
                if self._must_cancel and r.cancel():
                    self._must_cancel = False
            elif r is None:
                self._loop.call_soon(self._step)
            else:
                self._loop.call_soon(self._step, RuntimeError("Task got bad yield"))

    def _wakeup(self, fut):
        try:
            fut.result()
        except BaseException as e:
            self._step(e)
        else:
            self._step()


def pv_create_task(coro, *, name=None, context=None):
    return pv_get_running_loop().create_task(coro)


def pv_isfuture(x):
    return isinstance(x, _Future)


def pv_ensure_future(x, *, loop=None):
    if isinstance(x, _Future):
        return x
    return pv_get_running_loop().create_task(x)


class _Pass:
    def __await__(self):
        yield


async def pv_sleep(delay, result=None):
    if delay <= 0:
        await _Pass()
        return result
    _unsupported("asyncio.sleep")


class pv_Loop:
    def __init__(self):
        self.ready = []

    def call_soon(self, f, *args, context=None):
        self.ready.append((f, args))

    def call_soon_threadsafe(self, f, *args, context=None):
        self.ready.append((f, args))

    def create_future(self):
        return pv_Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return pv_Task(coro, loop=self)

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def turn(self):
        f, args = self.ready.pop(0)
        f(*args)


def pv_asyncio_run(main, *, debug=None, loop_factory=None):
    if _LOOP[0] is not None:
        raise RuntimeError("asyncio.run() cannot be called from a running event loop")
    l = pv_Loop()
    _LOOP[0] = l
    try:
        t = pv_Task(main, loop=l)
        while not t.done():
            l.turn()
    finally:
        _LOOP[0] = None
    return t.result()


class pv_SimpleQueue:
    def __init__(self, maxsize=0):
        self.q = []

    def put(self, x, block=True, timeout=None):
        self.q.append(x)

    put_nowait = put

    def get(self, block=True, timeout=None):
        if len(self.q) == 0:
            if block and timeout is None:
                _unsupported("waiting for a queue")
            raise _Empty()
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return len(self.q) == 0

    def qsize(self):
        return len(self.q)


from queue import Empty as _Empty  # noqa: E402

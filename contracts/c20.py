"""C20: cancellation.  Histories are loops of arbitrary operations; concurrent operations run under every schedule."""
from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException
from pv.prelude import _unsupported
from pv.lang import Bool, FunsT, FunT, NoneT, UserError, choose, contract, emit, fresh, interleave

P = "C20"
CB = FunT(NoneT())


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


def attempt(what, f, *a):
    """performs f and makes its outcome observable"""
    try:
        f(*a)
        emit(what, "returns")
    except UserError as e:
        emit(what, "raises", e.n)
    except ObjectDisposedException:
        emit(what, "refused")


def observe(src, tok):
    emit("requested", src.is_cancellation_requested, tok.is_cancellation_requested, src.token.is_cancellation_requested)
    emit("can be", tok.can_be_canceled, src.token.can_be_canceled)
    attempt("throw", tok.throw_if_cancellation_requested)


def s_observe(on):
    emit("requested", on, on, on)
    emit("can be", True, True)
    emit("throw", "refused" if on else "returns")


# ---- permanence, sharing
def code_state(body):
    src = CancellationTokenSource()
    tok = src.token
    while True:
        observe(src, tok)
        k = choose(5)
        if k == 0:
            attempt("cancel", src.cancel)
        elif k == 1:
            attempt("dispose", src.dispose)
        elif k == 2:
            attempt("with", within, src, body)
        elif k == 3:
            tok = src.token
        else:
            return None


def within(src, body):
    with src as x:
        emit("entered", x is src)
        body()


def spec_state(body):
    on = False
    while True:
        s_observe(on)
        k = choose(5)
        if k == 0:
            on = True
            emit("cancel", "returns")
        elif k == 1:
            on = True
            emit("dispose", "returns")
        elif k == 2:
            if on:
                emit("with", "refused")
            else:
                emit("entered", True)
                on = True
                try:
                    body()
                    emit("with", "returns")
                except UserError as e:
                    emit("with", "raises", e.n)
        elif k == 4:
            return None


c("history of a source and its tokens", dict(body=CB), code_state, spec_state)


def code_two(body):
    a, b = CancellationTokenSource(), CancellationTokenSource()
    ta, tb = a.token, b.token
    ta.register(body)
    a.cancel()
    observe(a, ta)
    observe(b, tb)
    tb.register(body)


def spec_two(body):
    try:
        body()
    except UserError:
        pass
    s_observe(True)
    s_observe(False)


c("sources are independent", dict(body=CB), code_two, spec_two)


def code_cancelled():
    s = CancellationTokenSource.cancelled_source()
    observe(s, s.token)


c("cancelled_source", dict(), code_cancelled, lambda: s_observe(True))


def code_none():
    t = CancellationToken.none()
    emit("none", t.is_cancellation_requested, t.can_be_canceled)
    attempt("throw", t.throw_if_cancellation_requested)
    attempt("register", lambda: (t.register(lambda: None), None)[1])


def spec_none():
    emit("none", False, False)
    emit("throw", "returns")
    emit("register", "refused")


c("the token that is never cancelled", dict(), code_none, spec_none)


# ---- registrations
def code_reg(f, g, h, mine):
    src = CancellationTokenSource()
    tok = src.token
    r, s = tok.register(f), (tok if mine else src.token).register(g)
    while True:
        k = choose(7)
        if k == 0:
            attempt("cancel", src.cancel)
        elif k == 1:
            attempt("dispose", src.dispose)
        elif k == 2:
            attempt("unregister f", r.dispose)
        elif k == 3:
            attempt("unregister g", s.dispose)
        elif k == 4:
            if src.is_cancellation_requested:
                attempt("register h", tok.register, h)
        elif k == 5:
            attempt("with", within, src, h)
        else:
            return None


def call(f):
    try:
        f()
    except UserError:
        pass


def spec_reg(f, g, h, mine):
    on, rf, rg = False, True, True
    while True:
        k = choose(7)
        if k == 0 or k == 1:
            if not on:
                on = True
                if rf:
                    call(f)
                if rg:
                    call(g)
            emit("cancel" if k == 0 else "dispose", "returns")
        elif k == 2:
            rf = False
            emit("unregister f", "returns")
        elif k == 3:
            rg = False
            emit("unregister g", "returns")
        elif k == 4:
            if on:
                emit("register h", "refused")
        elif k == 5:
            if on:
                emit("with", "refused")
            else:
                emit("entered", True)
                try:
                    try:
                        h()
                    finally:
                        on = True
                        if rf:
                            call(f)
                        if rg:
                            call(g)
                    emit("with", "returns")
                except UserError as e:
                    emit("with", "raises", e.n)
        else:
            return None


c("history of two registrations", dict(f=CB, g=CB, h=CB, mine=Bool), code_reg, spec_reg)


# any number of registrations: the table is represented by the sequence of its entries
class Table:
    """a dictionary whose keys are only ever added in increasing order"""

    def __init__(self):
        self.next = 0
        self.vs = []

    def __setitem__(self, k, v):
        if k < self.next:
            _unsupported("a table that reuses keys")
        self.next = k + 1
        self.vs.append(v)

    def values(self):
        return tuple(self.vs)

    def other(self, *a):
        _unsupported("another use of the table")

    __iter__ = __len__ = __contains__ = __getitem__ = __delitem__ = __bool__ = items = keys = pop = get = copy = clear = other
    setdefault = update = popitem = other


def code_many(fs):
    src = CancellationTokenSource()
    tok = src.token
    for f in fs:
        tok.register(f)
    attempt("cancel", src.cancel)
    attempt("cancel", src.cancel)


def spec_many(fs):
    for f in fs:
        call(f)
    emit("cancel", "returns")
    emit("cancel", "returns")


c("any number of registrations", dict(fs=FunsT(NoneT())), code_many, spec_many, overrides={("expression.system.cancellation", "dict"): Table})


def code_three(f, g, h):
    """a registration made after another was disposed does not disturb the rest"""
    src = CancellationTokenSource()
    tok = src.token
    rs = [tok.register(f), tok.register(g)]
    k = fresh(Bool)
    rs[0 if k else 1].dispose()
    rs.append(tok.register(h))
    rs[0 if k else 1].dispose()
    if fresh(Bool):
        rs[2].dispose()
    src.cancel()
    src.cancel()
    for r in rs:
        r.dispose()


def spec_three(f, g, h):
    k = fresh(Bool)
    if fresh(Bool):
        call(g if k else f)
    else:
        call(g if k else f)
        call(h)


c("register after unregister", dict(f=CB, g=CB, h=CB), code_three, spec_three)


def code_same(f):
    src = CancellationTokenSource()
    r, s = src.token.register(f), src.token.register(f)
    k = choose(4)
    if k == 1:
        r.dispose()
    elif k == 2:
        s.dispose()
        s.dispose()
    elif k == 3:
        r.dispose()
        s.dispose()
    src.cancel()


def spec_same(f):
    k = choose(4)
    if k != 3:
        call(f)
    if k == 0:
        call(f)


c("one callback registered twice", dict(f=CB), code_same, spec_same)


# callbacks that use the source
def code_inside(f, g, k):
    src = CancellationTokenSource()
    tok = src.token

    def cb():
        observe(src, tok)
        attempt("cancel", src.cancel)
        attempt("register", tok.register, f)
        attempt("unregister", r.dispose)
        f()
    r = tok.register(cb)
    s = tok.register(g)
    attempt("outer", src.cancel)
    attempt("later", s.dispose)
    attempt("outer", src.cancel)


def spec_inside(f, g, k):
    s_observe(True)
    emit("cancel", "returns")
    emit("register", "refused")
    emit("unregister", "returns")
    call(f)
    call(g)
    emit("outer", "returns")
    emit("later", "returns")
    emit("outer", "returns")


c("a callback uses the source", dict(f=CB, g=CB, k=Bool), code_inside, spec_inside)


# ---- threads: calls are counted, since their order is up to the schedule
class Counter:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n = self.n + 1
        if self.n == 1:
            raise UserError(0)


def kinds(outs):
    """outcome of each thread: returned, refused or something else"""
    r = []
    for o in outs:
        if o[0] == "ret":
            r.append("ret")
        elif isinstance(o[1], ObjectDisposedException):
            r.append("refused")
        else:
            r.append("other")
    return r


def code_register_cancel(n):
    def f():
        src = CancellationTokenSource()
        tok = src.token
        old = Counter()
        tok.register(old)
        new = [Counter() for _ in range(n)]
        ks = kinds(interleave(src.cancel, *[(lambda x: lambda: tok.register(x))(x) for x in new]))
        # cancellation is over: a callback was either refused or has been called once
        ok = ks[0] == "ret"
        for k, x in zip(ks[1:], new):
            ok = ok and (k == "refused" and x.n == 0 or k == "ret" and x.n == 1)
        src.cancel()
        emit("called", old.n, src.is_cancellation_requested)
        return ok
    return f


def spec_register_cancel():
    emit("called", 1, True)
    return True


c("register against cancel", dict(), code_register_cancel(1), spec_register_cancel)
c("two registers against cancel", dict(), code_register_cancel(2), spec_register_cancel, cost=5)


def code_registers():
    src = CancellationTokenSource()
    new = [Counter(), Counter()]
    ks = kinds(interleave(*[(lambda x: lambda: src.token.register(x))(x) for x in new]))
    src.cancel()
    return tuple(ks), new[0].n, new[1].n


c("register against register", dict(), code_registers, lambda: (("ret", "ret"), 1, 1))


def code_cancels():
    src = CancellationTokenSource()
    new = [Counter(), Counter()]
    for x in new:
        src.token.register(x)
    ks = kinds(interleave(src.cancel, src.dispose))
    return tuple(ks), new[0].n, new[1].n, src.is_cancellation_requested


c("cancel against cancel", dict(), code_cancels, lambda: (("ret", "ret"), 1, 1, True))


def code_unregister_cancel():
    src = CancellationTokenSource()
    a, b = Counter(), Counter()
    r = src.token.register(a)
    src.token.register(b)
    ks = kinds(interleave(src.cancel, r.dispose))
    return tuple(ks), a.n <= 1, b.n


c("unregister against cancel", dict(), code_unregister_cancel, lambda: (("ret", "ret"), True, 1))


def code_unregisters():
    src = CancellationTokenSource()
    a, b, d = Counter(), Counter(), Counter()
    r = src.token.register(a)
    s = src.token.register(b)
    ks = kinds(interleave(r.dispose, r.dispose, lambda: src.token.register(d)))
    src.cancel()
    s.dispose()
    return tuple(ks), a.n, b.n, d.n


c("unregister against unregister and register", dict(), code_unregisters, lambda: (("ret", "ret", "ret"), 0, 1, 1), cost=5)


def code_watch():
    """a token never reports cancellation and then no cancellation"""
    src = CancellationTokenSource()
    tok = src.token
    seen = []

    def look():
        seen.append(tok.is_cancellation_requested)
        seen.append(tok.is_cancellation_requested)
        attempt2(tok, seen)
        seen.append(tok.is_cancellation_requested)
    ks = kinds(interleave(src.cancel, look))
    ok = True
    for i in range(3):
        ok = ok and not (seen[i] and not seen[i + 1])
    return tuple(ks), ok, tok.is_cancellation_requested


def attempt2(tok, seen):
    try:
        tok.throw_if_cancellation_requested()
        seen.append(False)
    except ObjectDisposedException:
        seen.append(True)


c("observe against cancel", dict(), code_watch, lambda: (("ret", "ret"), True, True))

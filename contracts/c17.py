"""C17: parser combinators.  Component parsers are abstract: `run` is an arbitrary function of the remaining input whose calls are
observable events; the primitive character, string and number parsers run on an arbitrary string from an arbitrary position."""
import string

from expression import Error, Nothing, Ok, Some, pipe
from expression.collections import Block
from expression.extra import parser as ps
from expression.extra.parser import Parser
from pv.lang import Any, Char, FunT, Nat, ObjsT, ResT, SeqT, Str, TupT, contract, emit, fresh

P = "C17"
RES = ResT(TupT(Any, Any), Any)
RUN = FunT(RES)
RUN2 = FunT(ResT(TupT(TupT(Any, Any), Any), Any))
F = FunT(Any)
INT_NOTE = ["int() and float() of a non-empty string of decimal digits (with an optional fraction) are the numbers written there"]


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


# ---- ghost programs of the combinators
def s_and(p, q, i):
    a = p(i)
    if a.tag != "ok":
        return Error(a.error)
    b = q(a.ok[1])
    if b.tag != "ok":
        return Error(b.error)
    return Ok(((a.ok[0], b.ok[0]), b.ok[1]))


def s_or(p, q, i):
    a = p(i)
    if a.tag == "ok":
        return a
    return q(i)


def s_map(f, p, i):
    a = p(i)
    if a.tag != "ok":
        return Error(a.error)
    return Ok((f(a.ok[0]), a.ok[1]))


def s_many(p, i):
    out = []
    while True:
        r = p(i)
        if r.tag != "ok":
            return Ok((Block(out), i))
        out.append(r.ok[0])
        i = r.ok[1]


def s_many1(p, i):
    r = p(i)
    if r.tag != "ok":
        return Error(r.error)
    out = [r.ok[0]]
    i = r.ok[1]
    while True:
        r = p(i)
        if r.tag != "ok":
            return Ok((Block(out), i))
        out.append(r.ok[0])
        i = r.ok[1]


def s_opt(p, i):
    a = p(i)
    if a.tag != "ok":
        return Ok((Nothing, i))
    return Ok((Some(a.ok[0]), a.ok[1]))


def s_sequence(fs, i, objects=False):
    out = []
    for p in fs:
        r = p.run(i) if objects else p(i)
        if r.tag != "ok":
            return Error(r.error)
        out.append(r.ok[0])
        i = r.ok[1]
    return Ok((Block(out), i))


def s_sep_by1(p, sep, i):
    r = p(i)
    if r.tag != "ok":
        return Error(r.error)
    out = [r.ok[0]]
    i = r.ok[1]
    while True:
        s = sep(i)
        if s.tag != "ok":
            return Ok((Block(out), i))
        r = p(s.ok[1])
        if r.tag != "ok":
            return Ok((Block(out), i))
        out.append(r.ok[0])
        i = r.ok[1]


def s_sep_by(p, sep, i):
    r = s_sep_by1(p, sep, i)
    return r if r.tag == "ok" else Ok((Block(), i))


def s_first(p, q, i):
    r = s_and(p, q, i)
    return r if r.tag != "ok" else Ok((r.ok[0][0], r.ok[1]))


def s_second(p, q, i):
    r = s_and(p, q, i)
    return r if r.tag != "ok" else Ok((r.ok[0][1], r.ok[1]))


def s_between(o, cl, p, i):
    a = o(i)
    if a.tag != "ok":
        return Error(a.error)
    b = p(a.ok[1])
    if b.tag != "ok":
        return Error(b.error)
    d = cl(b.ok[1])
    if d.tag != "ok":
        return Error(d.error)
    return Ok((b.ok[0], d.ok[1]))


def s_bind(p, f, i):
    a = p(i)
    if a.tag != "ok":
        return Error(a.error)
    return f(a.ok[0]).run(a.ok[1])


# ---- Parser
c("call runs from position zero", dict(p=RUN, s=Any), lambda p, s: Parser(p)(s), lambda p, s: (lambda r: r if r.tag != "ok" else Ok(r.ok[0]))(p((s, 0))))
c("run", dict(p=RUN, i=Any), lambda p, i: Parser(p).run(i), lambda p, i: p(i))
c("run named", dict(p=RUN, i=Any), lambda p, i: Parser(p, "n").run(i), lambda p, i: p(i))
c("name", dict(p=RUN), lambda p: (str(Parser(p, "abc")), repr(Parser(p, "abc")), repr(Parser(p))), lambda p: ("abc", "abc", "parser"))

# ---- sequencing
A2 = dict(p=RUN, q=RUN, i=Any)
c("and_then", A2, lambda p, q, i: pipe(Parser(p), ps.and_then(Parser(q))).run(i), s_and)
c("and_then method", A2, lambda p, q, i: Parser(p).and_then(Parser(q)).run(i), s_and)
c("then_ignore", A2, lambda p, q, i: pipe(Parser(p), ps.then_ignore(Parser(q))).run(i), s_first)
c("then_ignore method", A2, lambda p, q, i: Parser(p).then_ignore(Parser(q)).run(i), s_first)
c("ignore_then", A2, lambda p, q, i: pipe(Parser(p), ps.ignore_then(Parser(q))).run(i), s_second)
c("ignore_then method", A2, lambda p, q, i: Parser(p).ignore_then(Parser(q)).run(i), s_second)
A3 = dict(o=RUN, cl=RUN, p=RUN, i=Any)
c("between", A3, lambda o, cl, p, i: ps.between(Parser(o))(Parser(cl))(Parser(p)).run(i), s_between)
c("between method", A3, lambda o, cl, p, i: Parser(p).between(Parser(o), Parser(cl)).run(i), s_between)
c("sequence", dict(fs=ObjsT(Parser, RES), i=Any), lambda fs, i: ps.sequence(Block(fs)).run(i), lambda fs, i: s_sequence(fs, i, True), records=[Parser])
for n in range(4):
    ns = ["p", "q", "r"][:n]
    c(f"sequence of {n}", dict(i=Any, **{x: RUN for x in ns}), lambda i, *fs: ps.sequence(Block([Parser(f) for f in fs])).run(i), lambda i, *fs: s_sequence(fs, i))
c("bind", dict(p=RUN, f=F, q=RUN, i=Any), lambda p, f, q, i: pipe(Parser(p), ps.bind(lambda v: (emit("binder", v), Parser(q))[1])).run(i),
  lambda p, f, q, i: s_bind(p, lambda v: (emit("binder", v), Parser(q))[1], i))
c("bind method", dict(p=RUN, f=F, q=RUN, i=Any), lambda p, f, q, i: Parser(p).bind(lambda v: (f(v), Parser(q))[1]).run(i),
  lambda p, f, q, i: s_bind(p, lambda v: (f(v), Parser(q))[1], i))

# ---- choice
c("or_else", A2, lambda p, q, i: ps.or_else(Parser(p))(Parser(q)).run(i), s_or)
c("or_else method", A2, lambda p, q, i: Parser(p).or_else(Parser(q)).run(i), s_or)


def s_choice(fs, i):
    r = fs[0](i)
    for f in fs[1:]:
        if r.tag == "ok":
            return r
        r = f(i)
    return r


for n in (1, 2, 3, 4, 5, 6):
    ns = ["p", "q", "r", "s", "t", "u"][:n]
    c(f"choice of {n}", dict(i=Any, **{x: RUN for x in ns}), lambda i, *fs: ps.choice(Block([Parser(f) for f in fs])).run(i), lambda i, *fs: s_choice(fs, i))


# choice of any length: by induction over Block.reduce (contract "reduce" of C09), whose combining step is verified here
c("choice induction", dict(acc=RUN, f=RUN, i=Any, j=Any), lambda acc, f, i, j: (lambda rec: (rec[0](Parser(acc), Parser(f)).run(i), rec[1] is j))(ps.choice(Blk(j))),
  lambda acc, f, i, j: (s_or(acc, f, i), True), no_native=True, assume=["Block.reduce is the left fold (contract reduce of C09): choice of any length by induction"],
  overrides={(__name__, "FOLDED"): True}, need=[(__name__, "FOLDED")])


FOLDED = True  # read when the reduce below is called


class Blk:
    """stands for a block whose reduce is recorded"""

    def __init__(self, j):
        self.j = j

    def reduce(self, fn):
        return (fn, self.j) if FOLDED else None


# ---- mapping and constants
c("map", dict(f=F, p=RUN, i=Any), lambda f, p, i: pipe(Parser(p), ps.map(f)).run(i), s_map)
c("map method", dict(f=F, p=RUN, i=Any), lambda f, p, i: Parser(p).map(f).run(i), s_map)
c("starmap", dict(f=F, p=RUN2, i=Any), lambda f, p, i: pipe(Parser(p), ps.starmap(f)).run(i), lambda f, p, i: s_map(lambda v: f(v[0], v[1]), p, i))
c("starmap method", dict(f=F, p=RUN2, i=Any), lambda f, p, i: Parser(p).starmap(f).run(i), lambda f, p, i: s_map(lambda v: f(v[0], v[1]), p, i))
c("preturn", dict(x=Any, i=Any), lambda x, i: ps.preturn(x).run(i), lambda x, i: Ok((x, i)))
c("fail", dict(e=Any, i=Any), lambda e, i: ps.fail(e).run(i), lambda e, i: Error(e))
c("fail static", dict(e=Any, i=Any), lambda e, i: Parser.fail(e).run(i), lambda e, i: Error(e))
c("ignore", dict(p=RUN, i=Any), lambda p, i: ps.ignore(Parser(p)).run(i), lambda p, i: s_map(lambda v: None, p, i))
c("ignore method", dict(p=RUN, i=Any), lambda p, i: Parser(p).ignore().run(i), lambda p, i: s_map(lambda v: None, p, i))
PF = FunT(ResT(TupT(FunT(Any), Any), Any))
c("apply", dict(f=F, p=RUN, q=RUN, i=Any), lambda f, p, q, i: ps.apply(pipe(Parser(p), ps.map(lambda v: lambda w: f(v, w))), Parser(q)).run(i),
  lambda f, p, q, i: s_map(lambda vw: f(vw[0], vw[1]), lambda i: s_and(p, q, i), i))
c("lift2", dict(f=F, p=RUN, q=RUN, i=Any), lambda f, p, q, i: ps.lift2(lambda v: lambda w: f(v, w))(Parser(p))(Parser(q)).run(i),
  lambda f, p, q, i: s_map(lambda vw: f(vw[0], vw[1]), lambda i: s_and(p, q, i), i))
c("opt", dict(p=RUN, i=Any), lambda p, i: ps.opt(Parser(p)).run(i), s_opt)
c("opt method", dict(p=RUN, i=Any), lambda p, i: Parser(p).opt().run(i), s_opt)

# ---- repetition: the longest run of successes
c("many", dict(p=RUN, i=Any), lambda p, i: ps.many(Parser(p)).run(i), s_many)
c("many1", dict(p=RUN, i=Any), lambda p, i: ps.many1(Parser(p)).run(i), s_many1)
c("sep_by1", dict(p=RUN, q=RUN, i=Any), lambda p, q, i: ps.sep_by1(Parser(p), Parser(q)).run(i), s_sep_by1)
c("sep_by", dict(p=RUN, q=RUN, i=Any), lambda p, q, i: ps.sep_by(Parser(p), Parser(q)).run(i), s_sep_by)
c("construction runs nothing", dict(p=RUN, f=F), lambda p, f: (lambda q: (ps.many(q), ps.many1(q), ps.opt(q), q.and_then(q), q.or_else(q), q.map(f), q.bind(f), q.ignore(), ps.sep_by(q, q), q.between(q, q), ps.lift2(f)(q)(q), None)[-1])(Parser(p)),
  lambda p, f: None)
c("a parser can be run again", dict(p=RUN, i=Any, j=Any), lambda p, i, j: (lambda q: (q.run(i), q.run(j)))(ps.many(Parser(p)).and_then(ps.opt(Parser(p)))),
  lambda p, i, j: (s_twice(p, i), s_twice(p, j)))


def s_twice(p, i):
    return s_and(lambda i: s_many(p, i), lambda i: s_opt(p, i), i)


# ---- characters, on any string from any position
def s_pchar(ch, s, i):
    if i >= len(s):
        return Error("no more input")
    if s[i] == ch:
        return Ok((ch, (s, i + 1)))
    return Error(f"Expecting '{ch}'. Got '{s[i]}'")


def kind(r):
    """the outcome without the text of the error"""
    return r if r.tag == "ok" else "error"


def s_class(chars, s, i):
    if i < len(s) and s[i] in chars:
        return Ok((s[i], (s, i + 1)))
    return "error"


S = dict(s=Str, i=Nat)
c("pchar", dict(ch=Char, **S), lambda ch, s, i: ps.pchar(ch).run((s, i)), s_pchar)
c("pchar static", dict(ch=Char, **S), lambda ch, s, i: Parser.pchar(ch).run((s, i)), s_pchar)
for name, par, chars in (("parse_digit", ps.parse_digit, string.digits), ("parse_lowercase", ps.parse_lowercase, string.ascii_lowercase),
                         ("parse_letters", ps.parse_letters, string.ascii_letters), ("whitespace_char", ps.whitespace_char, string.whitespace)):
    c(name, S, (lambda par: lambda s, i: kind(par.run((s, i))))(par), (lambda chars: lambda s, i: s_class(chars, s, i))(chars))
for chars in ("x", "ab", "+-*/"):
    c(f"any_of {chars}", S, (lambda chars: lambda s, i: kind(ps.any_of(chars).run((s, i))))(chars), (lambda chars: lambda s, i: s_class(chars, s, i))(chars))
c("any_of static", S, lambda s, i: kind(Parser.any_of("ab").run((s, i))), lambda s, i: s_class("ab", s, i))


def s_pstring(t, s, i):
    for ch in t:
        if i >= len(s) or s[i] != ch:
            return "error"
        i += 1
    return Ok((t, (s, i)))


c("pstring", dict(t=Str, **S), lambda t, s, i: kind(ps.pstring(t).run((s, i))), s_pstring, native_only="by contracts 'pstring from sequence', sequence and pchar")


# strings of any length: pstring(t) is the sequence of pchar(c) for the characters c of t in order, with the parsed characters joined
def ch_parser(ch):
    emit("pchar", ch)
    return fresh(Any)


def ch_sequence(b):
    emit("sequence", tuple(b))
    return Parser(ch_run)


def ch_run(inp):
    emit("run", inp)
    return fresh(ResT(TupT(SeqT(Char), Any), Any))


def s_pstring_seq(t, s, i):
    out = []
    for ch in t:
        out.append(ch_parser(ch))
    emit("sequence", tuple(out))
    r = ch_run((s, i))
    return "error" if r.tag != "ok" else Ok(("".join(r.ok[0]), r.ok[1]))


M = "expression.extra.parser"
c("pstring from sequence", dict(t=Str, **S), lambda t, s, i: kind(ps.pstring(t).run((s, i))), s_pstring_seq, no_native=True,
  overrides={(M, "pchar"): ch_parser, (M, "sequence"): ch_sequence}, need=[(M, "pchar"), (M, "sequence")])
for t in ("", "a", "ab", "aba", "-0a"):
    c(f"pstring '{t}'", S, (lambda t: lambda s, i: kind(ps.pstring(t).run((s, i))))(t), (lambda t: lambda s, i: s_pstring(t, s, i))(t))


# ---- runs of characters and numbers
def s_chars(chars, s, i):
    """the longest run of characters of the class at i, and where it ends"""
    if not (i < len(s) and s[i] in chars):
        return [], i
    out = [s[i]]
    i += 1
    while True:
        if not (i < len(s) and s[i] in chars):
            return out, i
        out.append(s[i])
        i += 1


def s_run1(chars, s, i):
    out, i = s_chars(chars, s, i)
    return Ok((Block(out), (s, i))) if out else "error"


def s_digits(s, i):
    return s_chars("0123456789", s, i)


def s_pint(s, i):
    neg = i < len(s) and s[i] == "-"
    ds, i = s_digits(s, i + 1 if neg else i)
    if not ds:
        return "error"
    n = int("".join(ds))
    return Ok((-n if neg else n, (s, i)))


def s_pfloat(s, i):
    neg = i < len(s) and s[i] == "-"
    ds, i = s_digits(s, i + 1 if neg else i)
    if not ds:
        return "error"
    if i < len(s) and s[i] == ".":
        fs, j = s_digits(s, i + 1)
        if fs:
            ds, i = ds + ["."] + fs, j
    n = float("".join(ds))
    return Ok((n * -1 if neg else n, (s, i)))


# the class parsers by their contracts (parse_digit, whitespace_char above)
def by_class(chars):
    def run(inp):
        s, i = inp
        if i < len(s) and s[i] in chars:
            return Ok((s[i], (s, i + 1)))
        return Error("error")
    return run


SUM = {getattr(ps.parse_digit, "_run", None): by_class(string.digits), getattr(ps.whitespace_char, "_run", None): by_class(string.whitespace)}
K = dict(summaries=SUM, secs=150, modes=(True, False, "code", "spec"), cost=10, assume=["parse_digit and whitespace_char by their contracts"])
c("digits", S, lambda s, i: kind(ps.digits.run((s, i))), lambda s, i: s_run1(string.digits, s, i), **K)
c("whitespace", S, lambda s, i: kind(ps.whitespace.run((s, i))), lambda s, i: s_run1(string.whitespace, s, i), **K)


# numbers: the sign, the fraction and the conversion for an arbitrary parser of runs of digits (an event with an arbitrary
# result); `digits` and many1(parse_digit) are what the contracts above say, so that the composition is the number parser
def dig(inp):
    emit("digits", inp)
    r = fresh(ResT(TupT(Char, SeqT(Char), Nat), Any))
    return r if r.tag != "ok" else Ok(((r.ok[0],) + r.ok[1], r.ok[2]))


def dig_run(inp):
    r = dig(inp)
    return Ok((Block(r.ok[0]), (inp[0], r.ok[1]))) if r.tag == "ok" else Error(r.error)


DIG = Parser(dig_run)


def gs_pint(s, i):
    neg = i < len(s) and s[i] == "-"
    r = dig((s, i + 1 if neg else i))
    if r.tag != "ok":
        return "error"
    n = int("".join(r.ok[0]))
    return Ok((-n if neg else n, (s, r.ok[1])))


def gs_pfloat(s, i):
    neg = i < len(s) and s[i] == "-"
    r = dig((s, i + 1 if neg else i))
    if r.tag != "ok":
        return "error"
    ds, i = r.ok
    if i < len(s) and s[i] == ".":
        r = dig((s, i + 1))
        if r.tag == "ok":
            ds, i = ds + (".",) + r.ok[0], r.ok[1]
    n = float("".join(ds))
    return Ok((n * -1 if neg else n, (s, i)))


c("pint", S, lambda s, i: kind(ps.pint.run((s, i))), s_pint, native_only="the object built by the function of contract 'pint from digits'; proved there")
if hasattr(ps, "_pint"):
    c("pint from digits", S, lambda s, i: kind(ps._pint().run((s, i))), gs_pint, no_native=True, assume=INT_NOTE,
      overrides={(M, "digits"): DIG}, need=[(M, "digits")])
if hasattr(ps, "_pfloat"):
    c("pfloat from digits", S, lambda s, i: kind(ps._pfloat().run((s, i))), gs_pfloat, no_native=True, assume=INT_NOTE,
      overrides={(M, "many1"): lambda p: DIG}, need=[(M, "many1")])
c("pfloat", S, lambda s, i: kind(ps.pfloat.run((s, i))), s_pfloat, native_only="the object built by the function of contract 'pfloat from digits'; proved there")
c("starts_with", dict(p=RUN, q=RUN, s=Str), lambda p, q, s: ps.starts_with(ps.preturn(s))(ps.preturn("ab")).run((s, 0)), lambda p, q, s: Ok((s[:2] == "ab", (s, 0))))

"""C03: conversions."""
from expression import Error, Nothing, Ok, Option, Result, Some, option, result
from expression.collections import Block, block
from pv.lang import Any, Bool, FunT, NoneT, OneOf, OptT, ResT, SeqT, TryT, contract

from .util import vo, vr

P = "C03"
V = OneOf(Any, OptT(), ResT())
O = OptT(V)
R = OneOf(ResT(V, V), TryT(Any))
F = FunT()


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


# ---- Option -> Result
def s_to_result(o, e):
    return ("ok", o.some) if o.tag == "some" else ("error", e)


for n, f in (("Option.to_result", lambda o, e: vr(o.to_result(e))), ("option.to_result", lambda o, e: vr(option.to_result(o, e))),
             ("result.of_option", lambda o, e: vr(result.of_option(o, e))), ("Result.of_option", lambda o, e: vr(Result.of_option(o, e)))):
    c(n, dict(o=O, e=V), f, s_to_result)


def s_to_result_with(o, f):
    return ("ok", o.some) if o.tag == "some" else ("error", f())


for n, f in (("Option.to_result_with", lambda o, f: vr(o.to_result_with(f))),
             ("option.to_result_with", lambda o, f: vr(option.to_result_with(o, f))),
             ("result.of_option_with", lambda o, f: vr(result.of_option_with(o, f))),
             ("Result.of_option_with", lambda o, f: vr(Result.of_option_with(o, f)))):
    c(n, dict(o=O, f=F), f, s_to_result_with)


# ---- Result -> Option
def s_to_option(r):
    return ("some", r.ok) if r.tag == "ok" else ("none",)


for n, f in (("Result.to_option", lambda r: vo(r.to_option())), ("result.to_option", lambda r: vo(result.to_option(r))),
             ("option.of_result", lambda r: vo(option.of_result(r))), ("Option.of_result", lambda r: vo(Option.of_result(r)))):
    c(n, dict(r=R), f, s_to_option)

# ---- round trips
c("Option-Result-Option", dict(o=O, e=V), lambda o, e: vo(o.to_result(e).to_option()), lambda o, e: vo(o))
c("Option-Result-Option (module)", dict(o=O, e=V), lambda o, e: vo(option.of_result(result.of_option(o, e))), lambda o, e: vo(o))
c("Result-Option-Result", dict(r=R, e=V), lambda r, e: vr(r.to_option().to_result(e)),
  lambda r, e: ("ok", r.ok) if r.tag == "ok" else ("error", e))


# ---- Optional
def s_of_optional(v):
    return ("none",) if v is None else ("some", v)


VN = OneOf(NoneT(), Any, OptT(), ResT())
for n, f in (("option.of_optional", lambda v: vo(option.of_optional(v))), ("Option.of_optional", lambda v: vo(Option.of_optional(v))),
             ("option.of_obj", lambda v: vo(option.of_obj(v))), ("Option.of_obj", lambda v: vo(Option.of_obj(v)))):
    c(n, dict(v=VN), f, s_of_optional)


def s_to_optional(o):
    return o.some if o.tag == "some" else None


c("Option.to_optional", dict(o=O), lambda o: o.to_optional(), s_to_optional)
c("option.to_optional", dict(o=O), lambda o: option.to_optional(o), s_to_optional)
c("Optional-Option-Optional", dict(v=VN), lambda v: option.to_optional(option.of_optional(v)), lambda v: v)
c("Option-Optional-Option", dict(v=V), lambda v: vo(option.of_optional(Some(v).to_optional())), s_of_optional)

# ---- containers
c("Block.of_option", dict(o=O), lambda o: tuple(Block.of_option(o)), lambda o: (o.some,) if o.tag == "some" else ())
c("block.of_option", dict(o=O), lambda o: tuple(block.of_option(o)), lambda o: (o.some,) if o.tag == "some" else ())
c("Option.to_list-of", dict(o=O), lambda o: tuple(Block(o.to_list())), lambda o: (o.some,) if o.tag == "some" else ())
c("Block-try_head", dict(o=O), lambda o: vo(Block.of_option(o).try_head()), lambda o: vo(o))
c("seq round trip", dict(o=O), lambda o: vo(_first(o)), lambda o: vo(o))


def _first(o):
    for x in o.to_seq():
        return Some(x)
    return Nothing


# ---- dict forms
class Dictable:
    """a payload with its own dict form"""

    def __init__(self, v):
        self.v = v

    def dict(self):
        return ("dict-of", self.v)


class Dumpable:
    def __init__(self, v):
        self.v = v

    def model_dump(self):
        return ("dump-of", self.v)


c("Option.dict", dict(o=OptT()), lambda o: o.dict(), s_to_optional, plain=True)
c("option.model_dump", dict(o=OptT()), lambda o: option.model_dump(o), s_to_optional, plain=True)
c("Result.dict", dict(r=ResT()), lambda r: r.dict(),
  lambda r: {"tag": "ok", "ok": r.ok} if r.tag == "ok" else {"tag": "error", "error": r.error}, plain=True)
c("result.dict", dict(r=ResT()), lambda r: result.dict(r),
  lambda r: {"tag": "ok", "ok": r.ok} if r.tag == "ok" else {"tag": "error", "error": r.error}, plain=True)
c("Option.dict nested", dict(v=Any, k=Bool), lambda v, k: Some(Dictable(v) if k else Dumpable(v)).dict(),
  lambda v, k: ("dict-of" if k else "dump-of", v))
c("Result.dict nested", dict(v=Any, k=Bool, t=Bool),
  lambda v, k, t: (lambda x: (Ok(x) if t else Error(x)).dict())(Dictable(v) if k else Dumpable(v)),
  lambda v, k, t: {"tag": "ok" if t else "error", "ok" if t else "error": ("dict-of" if k else "dump-of", v)})
c("Option.dict of option", dict(o=OptT(OptT())), lambda o: o.dict(),
  lambda o: None if o.tag == "none" else (o.some.some if o.some.tag == "some" else None), plain=True)

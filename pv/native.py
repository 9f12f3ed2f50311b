"""Concrete runner: executes a contract's code thunk and spec thunk under the repository's own interpreter against the
same environment (inputs and responses random, or scripted from a solver model) and compares every observable event and
the outcome.  It cross-checks the verifier's interpreter, replays solver counterexamples on the real code and searches
for a failing input after an obligation failed.  It is never what decides a property."""
from __future__ import annotations

import json
import os
import random
import signal
import sys
import time
import traceback

from . import lang, tree


class Stop(BaseException):
    """event budget of one run exhausted"""


class Hang(BaseException):
    """CPU-time budget of one run exhausted"""


CPU_S = 3.0
WALL_S = 30.0   # a run that waits for ever


def view(v, seen=None, depth=0):
    """canonical comparable form of an observed value"""
    if depth > 60:
        return ("deep",)
    c = type(v)
    if c in (int, bool, str, float, bytes, type(None)):
        return (c.__name__, repr(v))
    if c is lang.U:
        return ("U", v.n, v.s)
    if c is tuple:
        return ("tuple",) + tuple(view(x, seen, depth + 1) for x in v)
    if c is list:
        return ("list",) + tuple(view(x, seen, depth + 1) for x in v)
    if isinstance(v, lang.AbsFun):
        return ("fun", v.name)
    if isinstance(v, lang.FunVal):
        return ("fun#", v.n)
    if isinstance(v, lang.UserError):
        return ("uexc", view(v.n))
    if isinstance(v, BaseException):
        return ("exc", c.__name__)
    if c is dict:
        return ("dict",) + tuple(sorted((view(k), view(x, seen, depth + 1)) for k, x in v.items()))
    if c in (set, frozenset):
        return ("set",) + tuple(sorted(view(x) for x in v))
    tag = getattr(v, "tag", None)
    if isinstance(tag, str) and getattr(c.__init__, "__qualname__", "").startswith("tagged_union."):
        return ("case", c.__name__, tag, view(getattr(v, tag), seen, depth + 1))
    if isinstance(v, type) or callable(v):
        return ("named", getattr(v, "__qualname__", c.__name__))
    d = getattr(v, "__dict__", None)
    if d is not None and (c.__module__ or "").startswith(("contracts", "expression")):
        return ("obj", c.__name__) + tuple((k, view(x, seen, depth + 1)) for k, x in sorted(d.items()))
    return ("other", c.__name__)


def scalar_key(v):
    return v


class Env:
    """one environment: the responses given to the first run are given again, in order, to the second"""

    def __init__(self, rng=None, script=None, limit=60):
        self.rng, self.script, self.limit = rng, script, limit
        self.responses = []
        self.log = []
        self.i = 0
        self.hint = ""
        self.recording = True
        self.pretty = []
        self.schedules = random.Random(repr(rng.getstate()[1][:5]) if rng else "s")

    def rewind(self):
        self.recording = False
        self.i = 0
        self.log = []

    def sched(self):
        s = lang.Sched.random(self.schedules)
        self.pretty.append(("schedule", repr(s)[:300], ""))
        return s

    def event(self, name, args, kw, ty):
        if len(self.log) >= self.limit:
            raise Stop()
        self.log.append((name, view(tuple(args)), tuple(sorted((k, view(x)) for k, x in kw.items()))))
        i = self.i
        self.i += 1
        if i < len(self.responses):
            r = self.responses[i]
        elif not self.recording:
            r = self.make(ty, i, name)
            self.responses.append(r)
        else:
            r = self.make(ty, i, name)
            self.responses.append(r)
            self.pretty.append((name, repr(args)[:200], repr(r)[:200]))
        kind, v = r
        if kind == "raise":
            raise v
        return v

    def make(self, ty, i, name):
        if self.script is not None:
            if i < len(self.script):
                j = self.script[i]
                if isinstance(j, dict) and "raise" in j:
                    return ("raise", mkexc(j))
                return ("ret", decode(j, ty.ret) if not isinstance(ty.ret, lang.FunT) else lang.AbsFun(name + ".r", ty.ret))
            return ("ret", decode(None, ty.ret) if not isinstance(ty.ret, lang.FunT) else lang.AbsFun(name + ".r", ty.ret))
        if ty.raises and self.rng.random() < 0.08:
            e = lang.UserError(self.rng.randrange(100))
            if self.rng.random() < 0.3:
                e.__cause__ = lang.UserError(self.rng.randrange(100, 200))
            return ("raise", e)
        self.hint = name + ".r"
        return ("ret", ty.ret.gen(self.rng, self))


def mkexc(j):
    bases = []
    import importlib
    for n in j.get("cls", ()):
        mod, q = n.rsplit(".", 1)
        try:
            bases.append(getattr(importlib.import_module(mod), q))
        except Exception:
            pass
    cls = lang.UserError
    if bases:
        try:
            cls = type("UserErr", (lang.UserError, *bases), {})
        except TypeError:
            pass
    e = cls(decode(j["raise"], lang.Any))
    return e


def decode(j, ty):
    """value of the JSON form for a type (tolerant: ill-typed parts become defaults)"""
    L = lang
    if isinstance(ty, tree.TreeT):
        it = sorted({k: v for k, v in (j or {}).get("tree", [])}.items())
        it = [(L.U(k), decode(v, L.Any)) for k, v in it]
        hs = [h for h in range(12) if tree.fits(len(it), h)]
        h = j.get("h") if isinstance(j, dict) and j.get("h") in hs else hs[0]
        return tree.shape(random.Random(1), it, h)
    if isinstance(ty, L.OneOf):
        if isinstance(j, dict) and "oneof" in j:
            return decode(j["oneof"][1], ty.ts[j["oneof"][0]])
        for t in ty.ts:
            if fits(j, t):
                return decode(j, t)
        return decode(None, ty.ts[0])
    if isinstance(ty, L.NoneT):
        return None
    if isinstance(ty, L.IntT):
        v = j if isinstance(j, int) and not isinstance(j, bool) else (ty.lo or 0)
        return v
    if isinstance(ty, L.BoolT):
        return bool(j)
    if isinstance(ty, L.ConstT):
        if isinstance(j, dict) and "const" in j:
            for v in ty.vals:
                if repr(v) == j["const"]:
                    return v
        for v in ty.vals:
            if type(v) is type(j) and v == j:
                return v
        return ty.vals[0]
    if isinstance(ty, L.TryT):
        from expression import Failure, Success
        if isinstance(j, dict) and "case" in j:
            return Success(decode(j["case"][1], ty.t)) if j["case"][0] == "ok" else Failure(mkexc({"raise": j["case"][1]}))
        return Success(decode(None, ty.t))
    if isinstance(ty, L.ResT):
        from expression import Error, Ok
        if isinstance(j, dict) and "case" in j:
            return Ok(decode(j["case"][1], ty.t)) if j["case"][0] == "ok" else Error(decode(j["case"][1], ty.e))
        return Ok(decode(None, ty.t))
    if isinstance(ty, L.OptT):
        from expression import Nothing, Some
        if isinstance(j, dict) and "case" in j and j["case"][0] == "some":
            return Some(decode(j["case"][1], ty.t))
        return Nothing
    if isinstance(ty, L.TupT):
        js = j if isinstance(j, list) and len(j) == len(ty.ts) else [None] * len(ty.ts)
        return tuple(decode(x, t) for x, t in zip(js, ty.ts))
    if isinstance(ty, L.CharT):
        return j if isinstance(j, str) and len(j) == 1 else "a"
    if isinstance(ty, L.StrT):
        return j if isinstance(j, str) else ""
    if isinstance(ty, L.SeqT):
        return tuple(decode(x, ty.t) for x in j) if isinstance(j, list) else ()
    if isinstance(ty, L.ObjsT):
        return tuple(ty.mk(f) for f in decode(j, L.FunsT(ty.ret, ty.raises)))
    if isinstance(ty, L.FunsT):
        ft = L.FunT(ty.ret, ty.raises)
        return tuple(L.FunVal(k if isinstance(k, int) else i, ft) for i, k in enumerate(j if isinstance(j, list) else []))
    if isinstance(ty, L.FunT):
        return L.AbsFun(j if isinstance(j, str) else "fun", ty)
    if isinstance(ty, L.KeyT):
        if isinstance(j, dict) and "u" in j:
            return L.U(j["u"])
        return L.U(j if isinstance(j, int) else 0)
    # opaque
    if j is None or isinstance(j, (bool, int, str)):
        return j
    if isinstance(j, list):
        return tuple(decode(x, L.Any) for x in j)
    if isinstance(j, dict):
        if "u" in j:
            return L.U(j["u"], j.get("t", True))
        if "case" in j:
            from expression import Error, Nothing, Ok, Some
            t, x = j["case"]
            if t == "none":
                return Nothing
            k = {"some": Some, "ok": Ok, "error": Error}.get(t)
            if k:
                return k(decode(x, L.Any))
    return L.U(999)


def fits(j, t):
    L = lang
    if isinstance(t, L.NoneT):
        return j is None
    if isinstance(t, L.IntT):
        return isinstance(j, int) and not isinstance(j, bool)
    if isinstance(t, L.BoolT):
        return isinstance(j, bool)
    if isinstance(t, (L.SeqT, L.TupT)):
        return isinstance(j, list)
    if isinstance(t, (L.OptT, L.ResT)):
        return isinstance(j, dict) and "case" in j
    return True


def one(c, env, args):
    lang.CUR[0] = env
    a = args()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S)
    signal.setitimer(signal.ITIMER_REAL, WALL_S)
    try:
        try:
            r = ("ret", view(c(*a)))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Stop:
        r = ("stop",)
    except Hang:
        r = ("hang",)
    except lang.UserError as e:
        r = ("exc", type(e), view(e.n))
    except Exception as e:  # noqa: BLE001
        r = ("exc", type(e), None)
        env.tb = traceback.format_exc(limit=-6)
    return r, env.log


def agree(c, a, b):
    (ra, la), (rb, lb) = a, b
    n = min(len(la), len(lb))
    if la[:n] != lb[:n]:
        return False
    if "hang" in (ra[0], rb[0]):
        return ra[0] == rb[0] or "stop" in (ra[0], rb[0])
    if "stop" in (ra[0], rb[0]):
        if ra[0] == rb[0]:
            return True
        # one side exhausted the event budget while the other finished earlier
        fin = la if rb[0] == "stop" else lb
        return len(fin) >= n and len(la) == len(lb)
    if len(la) != len(lb):
        return False
    if ra[0] != rb[0]:
        return False
    if ra[0] == "exc":
        if issubclass(rb[1], lang.UserError) or issubclass(ra[1], lang.UserError):
            return ra[1] is rb[1] and ra[2] == rb[2]
        return issubclass(ra[1], rb[1])
    return ra == rb


def run_random(c, seed):
    """None when code and spec agree, else a description"""
    lang.BIG[0] = seed.endswith("L")
    lang.ODD[0] = seed.endswith("O") and not c.opt.get("plain")

    def args():
        r = random.Random(f"{seed}:in")
        out = []
        env.last_seq = env.last_tree = None
        for n, ty in c.args.items():
            env.hint = n
            out.append(ty.gen(r, env))
        return out
    env = Env(rng=random.Random(f"{seed}:ev"), limit=600 if lang.BIG[0] else 60)
    a = one(c.code, env, args)
    env.rewind()
    b = one(c.spec, env, args)
    if agree(c, a, b):
        return None
    return describe(c, args(), env, a, b, {"contract": c.name, "prop": c.prop, "seed": seed})


def run_script(c, script):
    lang.BIG[0] = lang.ODD[0] = False
    env = Env(script=script["responses"], limit=400)

    def args():
        out = []
        for n, ty in c.args.items():
            env.hint = n
            j = script["inputs"].get(n)
            out.append(lang.AbsFun(n, ty) if isinstance(ty, lang.FunT) else decode(j, ty))
        return out
    a = one(c.code, env, args)
    env.rewind()
    b = one(c.spec, env, args)
    if agree(c, a, b):
        return None
    return describe(c, args(), env, a, b, {"contract": c.name, "prop": c.prop, "script": script})


def describe(c, args, env, a, b, rep):
    rep.update(
        args={n: repr(v)[:300] for n, v in zip(c.args, args)},
        environment=env.pretty[:30],
        code_outcome=repr(a[0])[:600], spec_outcome=repr(b[0])[:600],
        code_events=[repr(e)[:200] for e in a[1]][-12:], spec_events=[repr(e)[:200] for e in b[1]][-12:],
        traceback=getattr(env, "tb", "")[-1500:])
    return rep


def load(prop):
    repo = os.environ.get("PV_REPO", "/repo")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in (here, repo):
        if p not in sys.path:
            sys.path.insert(0, p)
    import importlib
    lang.CONTRACTS.clear()
    importlib.import_module(f"contracts.{prop.lower()}")
    return [c for c in lang.CONTRACTS if c.prop == prop]


def main():
    """request on stdin: {"prop":..., "jobs":[{"contract":name,"n":..,"seed":..,"secs":..} | {"contract":..., "script":...}]}"""
    def onalarm(*_):
        raise Hang()
    signal.signal(signal.SIGVTALRM, onalarm)
    signal.signal(signal.SIGALRM, onalarm)
    sys.setrecursionlimit(1500)
    req = json.load(sys.stdin)
    cs = {c.name: c for c in load(req["prop"])}
    out = []
    for j in req["jobs"]:
        c = cs[j["contract"]]
        res = {"contract": c.name, "runs": 0, "bad": None}
        try:
            if "script" in j:
                res["runs"] = 1
                res["bad"] = run_script(c, j["script"])
            elif "replay_seed" in j:
                res["runs"] = 1
                res["bad"] = run_random(c, j["replay_seed"])
            else:
                t0 = time.time()
                n = 0
                while n < j["n"] and time.time() - t0 < j["secs"]:
                    n += 1
                    bad = run_random(c, f"{j['seed']}:{n}" + ("L" if n % 5 == 0 else "O" if n % 5 == 2 else ""))
                    if bad:
                        res["bad"] = bad
                        break
                res["runs"] = n
        except BaseException as e:  # noqa: BLE001
            res["error"] = traceback.format_exc()[-1500:]
            if isinstance(e, KeyboardInterrupt):
                raise
        out.append(res)
    json.dump(out, OUT)
    OUT.flush()


if __name__ == "__main__":
    # keep stray prints of the code under test out of the reply
    OUT = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    main()

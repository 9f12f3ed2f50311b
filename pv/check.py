"""Entry point of every check: verify all contracts of one property against /repo's current source."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.path.append(os.path.join(HERE, "pv", "stubs"))  # pydantic, when it is not installed
sys.setrecursionlimit(20000)

from pv import lang  # noqa: E402

NATIVE_PY = "/opt/venv/bin/python"
CORES = int(os.environ.get("PV_CORES", "8"))

TRUSTED = [
    "CPython 3.12 compiler (bytecode of /repo's functions) and the VM's opcode semantics in pv/ops.py (cross-checked natively on every run)",
    "models of Python builtins and standard library in pv/natives.py and pv/prelude.py",
    "Z3 4.x/5.x (python3-vt z3-solver) and cvc5 1.1.2 as second back end",
    "the ghost specifications in contracts/*.py",
]
ASSUME = [
    "partial correctness: termination of loops and recursion is not proved (the concrete cross-check bounds CPU time per run)",
    "Python integers are mathematical integers; memory and recursion-depth exhaustion are not modelled",
    "== on user values is an equivalence, for C04, C06-C09, C12, C23 deduced facts take it as identity (the concrete runs do not); user callbacks do not raise StopIteration/GeneratorExit and do not mutate library objects behind the API",
]


# ------------------------------------------------------------------ verification of one contract
def qual(code):
    fn = code.co_filename
    r = os.path.realpath(REPO) + os.sep
    if os.path.realpath(fn).startswith(r):
        return f"{os.path.relpath(os.path.realpath(fn), r)}:{code.co_qualname}"
    return None


def explorer(c, **kw):
    from pv import prove
    ex = prove.Explorer(c, overrides=c.opt.get("overrides"), summaries=c.opt.get("summaries"), budget=c.opt.get("steps"), **kw)
    if "threshold" in c.opt:
        ex.threshold = c.opt["threshold"]
    return ex


def verify(c, secs, end=float('inf'), refuted=False):
    """result dict of the deductive verification of one contract (refuted: a concrete run has already failed, so only the
    obligation is looked for, with a small budget)"""
    from pv import vm
    t0 = time.time()
    if c.opt.get("native_only"):
        return dict(contract=c.name, status="bounded", why=c.opt["native_only"], obligations=0, discharged=0, wall=0)
    first = None
    modes = c.opt.get("modes", (False, True, "code", "spec"))
    if refuted:
        modes = modes[:1]
    for lock in modes:
        # second strategy: silent loops of code and specification aligned iteration by iteration
        ex = explorer(c)
        # and with one iteration of the code's, or of the specification's, loops peeled off
        ex.lockstep = bool(lock)
        ex.peel = lock
        ex.deadline = min(time.time() + (20 if refuted else c.opt.get("secs", secs)), t0 + 1.5 * c.opt.get("secs", secs), end)
        status, why = "proved", ""
        try:
            ex.run()
            if c.opt.get("need") and not set(c.opt["need"]) <= ex.used_overrides:
                ex.fail = []
                raise vm.Unsupported("the code no longer has the shape this induction argument is about")
            if ex.fail:
                status = "failed"
                why = "; ".join(sorted({f"{f.name} ({f.why})" for f in ex.fail}))[:1500]
            elif not ex.obl or not ex.completed:
                status, why = "vacuous", "no execution reached an observable outcome"
        except vm.Unsupported as e:
            status, why = "unsupported", str(e)
            if ex.fail:
                status, why = "failed", "; ".join(sorted({f"{f.name} ({f.why})" for f in ex.fail}))[:1500]
        except RecursionError:
            status, why = "unsupported", "recursion limit of the verifier"
        except Exception:
            status, why = "crash", traceback.format_exc()[-2500:]
        if status == "proved":
            break
        if first is None:
            first = (status, why, ex)
        if not ex.cutset and status != "unsupported":
            break
    else:
        if first[0] == "failed" or status != "failed":
            status, why, ex = first
    be = {}
    for _, how in ex.obl:
        be[how] = be.get(how, 0) + 1
    fns = sorted({q for q in map(qual, ex.functions) if q})
    r = dict(contract=c.name, status=status, why=why, obligations=len(ex.obl), discharged=sum(1 for _, h in ex.obl if h != "failed"),
             backends=be, solver_s=round(ex.solver.time, 3), queries=ex.solver.queries, unknown=ex.solver.unknown,
             functions=fns, assumptions=sorted(ex.assumptions), bounds=sorted(ex.bounds), cuts=len(ex.cutset), paths=ex.paths,
             invariants=sum(len(i) for i in ex.invariants), wall=round(time.time() - t0, 2))
    if status == "failed":
        r["obligation"] = [f"{f.name} ({f.why})" for f in ex.fail][:8]
        r["scripts"] = scripts(c, ex)
    return r


def scripts(c, ex):
    """concrete inputs and environment responses from the models of failed obligations"""
    from pv import vm
    out = []
    fails = [(ex, f) for f in ex.fail if not f.st.active]
    if len(fails) < 3:
        for k in (2, 4):
            ex2 = explorer(c, unroll=k)
            ex2.deadline = time.time() + 25
            try:
                ex2.run()
            except (vm.Unsupported, RecursionError):
                pass
            except Exception:
                pass
            fails += [(ex2, f) for f in ex2.fail]
            if fails:
                break
    for e, f in fails[:6]:
        try:
            m = e.solver.model(f.st.pc)
            if m is None:
                continue
            dec = Concretize(e, m)
            out.append({"inputs": {n: dec.rec(r) for n, r in f.st.inputs}, "responses": [dec.rec(r) for _, _, r in f.st.events],
                        "obligation": f.name})
        except Exception:
            continue
    return out


class Concretize:
    def __init__(self, ex, m):
        self.ex, self.m = ex, m
        self.atoms = {}

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def rec(self, r):
        import z3
        from pv import terms as T
        k = r[0]
        if k == "V":
            return self.val(self.ev(r[1]))
        if k == "I":
            return self.ev(r[1]).as_long()
        if k == "B":
            return str(self.ev(r[1])) == "True"
        if k == "const":
            return {"const": repr(r[1])}
        if k in ("Some", "Ok", "Error", "Success", "Failure"):
            tag = {"Some": "some", "Ok": "ok", "Success": "ok"}.get(k, "error")
            return {"case": [tag, self.rec(r[1])]}
        if k == "Nothing":
            return {"case": ["none", None]}
        if k == "exc":
            return self.val(self.ev(r[1]))
        if k == "raise":
            cls = [f"{t.__module__}.{t.__qualname__}" for t, f in self.ex.exc_classes.items() if str(self.ev(f(r[1]))) == "True"]
            return {"raise": self.val(self.ev(r[1])), "cls": cls}
        if k == "tup":
            return [self.rec(x) for x in r[1]]
        if k == "Q":
            return self.seq(self.ev(r[1]))
        if k == "Qs":
            return "".join(x if isinstance(x, str) and len(x) == 1 else "?" for x in self.seq(self.ev(r[1])))
        if k == "Qf":
            return [i if not isinstance(x, dict) else x.get("u", i) for i, x in enumerate(self.seq(self.ev(r[1])))]
        if k == "fun":
            return r[1]
        if k == "tree":
            from pv import trees
            q = self.ev(trees.flat_uf(r[1]))
            items = []
            for i in range(min(40, self.ev(z3.Length(q)).as_long())):
                p = self.ev(q[i])
                o = self.ev(T.ord_uf(T.V.tq(p)[0])).as_long()
                items.append([o, self.val(self.ev(T.V.tq(p)[1]))])
            return {"tree": items, "h": self.ev(trees.ht_uf(r[1])).as_long()}
        return None

    def seq(self, q):
        import z3
        k = q.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return []
        if k == z3.Z3_OP_SEQ_UNIT:
            return [self.val(q.arg(0))]
        if k == z3.Z3_OP_SEQ_CONCAT:
            return [x for i in range(q.num_args()) for x in self.seq(q.arg(i))]
        return []

    def val(self, t):
        from pv import terms as T
        n = t.decl().name()
        if n == "vnone":
            return None
        if n == "vbool":
            return str(t.arg(0)) == "True"
        if n == "vint":
            return t.arg(0).as_long()
        if n == "vstr":
            return t.arg(0).as_string()
        if n in ("vtup", "vlist"):
            return self.seq(t.arg(0))
        if n == "vobj":
            fs = self.seq(t.arg(1))
            c = t.arg(0).as_long()
            if 0 <= c < len(T.CLS.rev) and len(fs) == 2 and isinstance(fs[0], str):
                return {"case": fs}
        key = str(t)
        u = self.atoms.setdefault(key, len(self.atoms) + 100)
        tr = str(self.m.eval(T.truthy_uf(t), model_completion=True)) != "False"
        return {"u": u, "t": tr}


# ------------------------------------------------------------------ concrete runs
def native(prop, jobs, timeout=600):
    if not jobs:
        return []
    p = subprocess.run([NATIVE_PY, "-m", "pv.native"], cwd=HERE, input=json.dumps({"prop": prop, "jobs": jobs}), text=True,
                       capture_output=True, timeout=timeout, env={**os.environ, "PYTHONPATH": f"{HERE}:{REPO}", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent/pycache"})
    if p.returncode:
        raise RuntimeError("concrete runner failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def native_batch(a):
    prop, jobs = a
    try:
        return native(prop, jobs)
    except Exception as e:
        return [{"contract": j["contract"], "runs": 0, "bad": None, "error": str(e)[-1500:]} for j in jobs]


def chunks(l, n):
    return [l[i::n] for i in range(n) if l[i::n]]


CS = {}


def _task(a):
    return verify(CS[a[0]], *a[1:])


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status", "known") == "known":
                    out.append(d)
    return out


def main(prop, tier=None, only=None, verbose=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from pv import native as nat
    cs = nat.load(prop)
    if only:
        cs = [c for c in cs if only in c.name]
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    for c in cs:
        CS[c.name] = c
    secs = 120 if tier == "quick" else 500
    nruns, nsecs = (150, 6) if tier == "quick" else (3000, 60)
    known = {k["contract"]: k for k in known_findings(prop)}
    from pv import prove  # noqa: F401  (load z3 before forking)
    njobs = [{"contract": c.name, "n": c.opt.get("runs", nruns), "secs": nsecs, "seed": seed} for c in cs
             if not c.opt.get("no_native")]
    end = t0 + (480 if tier == "quick" else 3000)
    vres, nres = {}, {}
    ctx = mp.get_context("fork")
    with ctx.Pool(CORES) as pool:
        for r in pool.imap_unordered(native_batch, [(prop, ch) for ch in chunks(njobs, CORES)]):
            for x in r:
                nres[x["contract"]] = x
    tasks = [(c.name, secs, end, bool(nres.get(c.name, {}).get("bad"))) for c in sorted(cs, key=lambda c: -c.opt.get("cost", 1))]
    # a process of its own per contract: the verdict does not depend on what ran before it
    with ctx.Pool(CORES, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_task, tasks):
            vres[r["contract"]] = r
            if verbose:
                print(f"{r['status']:11} {r['wall']:6.2f}s obl={r['obligations']:4} cuts={r.get('cuts', 0)} {r['contract']}  {r['why'][:300]}", flush=True)
    # ---- failing inputs for failed obligations
    replays = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    viol, notes = [], []
    search = []
    for n in names:
        v, x = vres[n], nres.get(n, {})
        if x.get("error"):
            notes.append(f"concrete run of {n}: {x['error']}")
        if v["status"] == "failed" and not x.get("bad") and not CS[n].opt.get("no_native"):
            js = [{"contract": n, "script": s} for s in v.get("scripts", ())]
            hit = None
            for r in native_batch((prop, js)) if js else []:
                if r.get("bad"):
                    hit = r["bad"]
                    break
            if hit:
                nres.setdefault(n, {"contract": n})["bad"] = hit
            else:
                search.append(n)
    if search:
        per = max(10, min(60, 240 // max(1, (len(search) + CORES - 1) // CORES)))
        with ctx.Pool(CORES) as pool:
            for r in pool.imap_unordered(native_batch, [(prop, [{"contract": n, "n": 10 ** 6, "secs": per, "seed": f"s{seed}"}]) for n in search]):
                if r[0].get("bad"):
                    nres[r[0]["contract"]]["bad"] = r[0]["bad"]
    nobounded = []
    for n in names:
        v, x = vres[n], nres.get(n, {})
        bad = x.get("bad")
        if v["status"] in ("unsupported", "vacuous", "bounded", "crash"):
            nobounded.append(f"{n}: {v['status']}: {v['why']}")
        if not bad and v["status"] != "failed":
            continue
        if n in known:
            print(f"KNOWN-FINDING: property={prop} {known[n]['what']}")
            continue
        path = os.path.join(replays, f"{prop}-{len(viol) + 1}.json")
        json.dump({"property": prop, "contract": n, "failed_obligations": v.get("obligation", []), "verifier": v["why"],
                   "failing_input": bad, "scripts": v.get("scripts", []),
                   "how_to_replay": f"cd {HERE} && bin/replay {path}"}, open(path, "w"), indent=1, default=repr)
        viol.append((n, path, bool(bad)))
    for n, path, conc in viol:
        v = vres[n]
        print(f"contract {n}: {v['status']} {v['why'][:400]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if conc else " no-failing-input-found"))
    obl = sum(v["obligations"] for v in vres.values())
    dis = sum(v["discharged"] for v in vres.values())
    be = {}
    for v in vres.values():
        for k, q in v.get("backends", {}).items():
            be[k] = be.get(k, 0) + q
    fns = sorted({f for v in vres.values() for f in v.get("functions", ())})
    proved = [n for n in names if vres[n]["status"] == "proved"]
    ass = sorted({a for v in vres.values() for a in v.get("assumptions", ())} | {a for c in cs for a in c.opt.get("assume", ())})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"bin/check {prop} (python3-vt pv/check.py: symbolic execution of /repo's bytecode, Z3; cvc5 for what Z3 leaves open)",
            "trusted_base": TRUSTED,
            "contracts": len(names), "contracts_proved": len(proved),
            "contracts_bounded_only": nobounded,
            "functions_under_contract": fns, "n_functions_under_contract": len(fns),
            "discharged_by": be, "solver_seconds": round(sum(v.get("solver_s", 0) for v in vres.values()), 2),
            "solver_queries": sum(v.get("queries", 0) for v in vres.values()),
            "loop_cut_points": sum(v.get("cuts", 0) for v in vres.values()),
            "inferred_invariant_conjuncts_checked": sum(v.get("invariants", 0) for v in vres.values()),
            "paths": sum(v.get("paths", 0) for v in vres.values()),
            "bounded_steps_inside_proofs": sorted({b for v in vres.values() for b in v.get("bounds", ())}),
            "concrete_crosscheck_runs": sum(x.get("runs", 0) for x in nres.values()),
            "samples": [{"contract": n, "status": vres[n]["status"], "obligations": vres[n]["obligations"]} for n in names[:400]],
            "notes": notes[:20],
        },
        "assumptions": ASSUME + ass,
        "violations": len(viol), "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for s in nobounded:
        print("bounded:", s[:600] if not verbose else s)
    for s in notes[:10]:
        print("note:", s[:1500])
    print(f"{prop}: {len(proved)}/{len(names)} contracts proved, {dis}/{obl} obligations discharged {be}, {len(fns)} functions, "
          f"{ev['coverage']['concrete_crosscheck_runs']} concrete runs, {time.time() - t0:.1f}s")
    if viol:
        return 1
    if not obl:
        print("no obligation was generated: decided by the concrete runs alone")
        if not ev["coverage"]["concrete_crosscheck_runs"]:
            return 2
    return 0


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else None
    sys.exit(main(a[0], tier, a[1] if len(a) > 1 else None, "-v" in sys.argv))

"""mkseed.py ID PROPERTY: reads a seed description from stdin (python: needs, breaks, edits=[(file, old, new)], demo) and, after
confirming in a scratch copy that it builds, passes the tests, and that the demo separates, stores it in seeded/ID."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def main(sid, prop, src):
    ns = {}
    exec(src, ns)
    S = f"/tmp/seed_{sid}"
    shutil.rmtree(S, ignore_errors=True)
    run(["cp", "-a", "/repo", S])
    try:
        d = f"{S}_d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(f"{d}/demo.py", "w").write(ns["demo"].lstrip())
        open(f"{d}/demo.sh", "w").write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        r = run(["timeout", "120", "sh", f"{d}/demo.sh"], cwd=S)
        if r.returncode:
            print("demo fails on the unchanged tree:", r.stdout, r.stderr)
            return 1
        for f, old, new in ns["edits"]:
            p = f"{S}/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                print("old text occurs", t.count(old), "times in", f, repr(old))
                return 1
            open(p, "w").write(t.replace(old, new))
        r = run(["timeout", "120", "sh", f"{d}/demo.sh"], cwd=S)
        if r.returncode == 0:
            print("demo does not fail with the change")
            return 1
        print("demo with the change:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "tests"], cwd=S, env={**os.environ, "PYTHONPATH": S})
        print(t.stdout.strip().splitlines()[-1])
        if t.returncode:
            print(t.stdout[-1500:])
            return 1
        diff = run(["git", "diff"], cwd=S).stdout
        out = f"{H}/seeded/{sid}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        shutil.copy(f"{d}/demo.py", out)
        shutil.copy(f"{d}/demo.sh", out)
        json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        r = run([f"{H}/bin/check", prop], env={**os.environ, "PV_REPO": S})
        print("check exit", r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOL")][:3], r.stdout.splitlines()[-1:])
        return 0
    finally:
        shutil.rmtree(S, ignore_errors=True)
        shutil.rmtree(f"{S}_d", ignore_errors=True)


sys.exit(main(sys.argv[1], sys.argv[2], sys.stdin.read()))

"""Replay the failing input of a replay file on the real code."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("PV_REPO", "/repo")]
from pv.check import native  # noqa: E402

d = json.load(open(sys.argv[1]))
b = d.get("failing_input")
if not b:
    print("no failing input; failed obligations:", d["failed_obligations"])
    sys.exit(1)
job = {"contract": d["contract"], "script": b["script"]} if "script" in b else {"contract": d["contract"], "replay_seed": b["seed"]}
for _ in range(10):  # threads are not perfectly repeatable
    r = native(d["property"], [job])
    if r[0]["bad"]:
        break
print(json.dumps(r, indent=1))
sys.exit(1 if r[0]["bad"] else 0)

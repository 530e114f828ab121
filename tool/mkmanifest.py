"""writes /verif/MANIFEST.json from contracts/props.json and properties.jsonl"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, "contracts", "props.json")))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "contracts", "not_applicable.json"))) if os.path.exists(os.path.join(V, "contracts", "not_applicable.json")) else {}
checks, out_na = [], []
for p in props:
    c = cfg.get(p["id"])
    if not c:
        out_na.append(dict(property=p["id"], reason=na.get(p["id"], "no contract built yet; nothing is claimed for it")))
        continue
    e = dict(property=p["id"], quick_cmd=f"python3 tool/check.py {p['id']} --tier quick",
             thorough_cmd=f"python3 tool/check.py {p['id']} --tier thorough",
             technique=c["technique"], level=c["level"], level_note=c["note"])
    if c.get("theorems"):
        e["theorems"] = c["theorems"]
    checks.append(e)
m = dict(version=1, setup_cmd="python3 tool/setup.py", hooks=dict(guard="none", enable="no hooks are used: contracts live in /verif and are woven into text extracted from /repo on every run", source_commits=[]),
         checks=checks, not_applicable=out_na,
         notes="Deciding step: Verus accepts every obligation generated from functions extracted from /repo on each run. A bounded harness (public API, real code) supplies concrete failing inputs and covers what the contracts assume; it is never counted as proof. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(out_na), "not applicable")

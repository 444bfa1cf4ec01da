"""Write MANIFEST.json: one check per property that has a specification module and a driver."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
models = json.load(open(os.path.join(ROOT, "lib", "models.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if not (os.path.exists(f"{ROOT}/spec/{i}.tla") and os.path.exists(f"{ROOT}/drivers/{i.lower()}.py")):
        na.append(dict(property=i, reason="not built yet"))
        continue
    m = ", ".join(x["module"] for x in models.get(i, []))
    checks.append(dict(
        property=i,
        quick_cmd=f"./check.sh {i} --tier quick",
        thorough_cmd=f"./check.sh {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique=f"TLA+ specification (spec/{i}.tla" + (f", design model {m}" if m else "") + "), TLC-enumerated scenarios replayed into gftool, "
                  "recorded traces checked against the specification by TLC",
        level="model_checking",
        level_note="TLC enumerates every scenario class of the specification and decides every recorded call exactly (320-bit arithmetic) against the "
                   "specification's relation; concrete numbers inside a scenario class are drawn from VERIF_SEED. Trusted: TLC, java/MP.java, the recording in lib/vf.py."))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: every property is observable at the public API."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))

"""Write MANIFEST.json: one entry per property that has a check (harness/checks/cXX.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(id, tech, note): T[id] = (tech, note)
t("C01", "TLA+ fixed-point tidal equation (Tide.tla); TLC evaluates every recorded prediction",
  "Every tabulated constituent in all nine convention combinations at seeded random dates and latitudes, and random composite scalar/vector solutions; TLC computes each value to 6e-6. Trusts TLC and the committed integer copy of the tables.")
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", p.lower() + ".py")):
        tech, note = T[p]
        checks.append(dict(property=p, quick_cmd=f"bin/check {p} quick", thorough_cmd=f"bin/check {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="TLA+ (TLC) specification in spec/, conformance drivers in harness/. No hooks in /repo are needed: the public API exposes the abstract state."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

"""Writes MANIFEST.json from the list of checks that exist."""
import importlib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(VERIF, "checks", i + ".py")):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    m = importlib.import_module(i)
    checks.append({
        "property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
        "evidence_file": "evidence/%s.json" % i, "technique": getattr(m, "TECHNIQUE"), "level": "exploration",
        "level_note": "Search over generated cases, not proof: absence of a failure covers only what was generated. "
                      + "Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + "."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the reader probe is added with go build -overlay. All checks are "
                    "property-based testing with Hypothesis against explicit oracles; see DESIGN.md."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

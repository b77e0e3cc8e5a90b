"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = {}
nf = os.path.join(H, "tools", "notes.json")
if os.path.exists(nf):
    NOTES = json.load(open(nf))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "drivers", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append({
            "property": i, "quick_cmd": "./bin/check %s quick" % i,
            "thorough_cmd": "./bin/check %s thorough" % i,
            "technique": n.get("technique", "TLA+ specification checked with TLC; behaviours replayed in the real code and every recorded transition validated by TLC"),
            "level": "model_checking",
            "level_note": n.get("note", "Exhaustive within the stated bounds for the model; the code is bound to it by the replayed and validated transitions only.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./bin/setup", "checks": checks,
           "not_applicable": na,
           "notes": "Specification language: TLA+ (TLC 1.8). No hooks in /repo."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not built")

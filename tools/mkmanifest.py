"""Write MANIFEST.json from the list of checks below."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
TECH = "TLA+ specification; traces recorded from the real code validated with TLC against it"
NOTE = ("Every recorded call of every explored program is decided by TLC against the specification with exact "
        "rational arithmetic; assurance is bounded by the explored programs. Trusts TLC, the exact-arithmetic "
        "override (self-checked at set-up), and the recorder.")
EXTRA = {}
exec(open(os.path.join(here, "tools", "notes.py")).read()) if os.path.exists(os.path.join(here, "tools", "notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness", "checks", i.lower() + ".py")):
        tech, note = EXTRA.get(i, (TECH, NOTE))
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"env VERIF_TIER=thorough ./check {i}",
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks observe /repo through its public interface only", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")

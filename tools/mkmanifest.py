"""Writes MANIFEST.json for the checks that exist in vh/checks."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(line)["id"] for line in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
checks = []
missing = []
for i in ids:
    if not os.path.exists(os.path.join(here, "vh", "checks", i.lower() + ".py")):
        missing.append(i)
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": NOTES.get(i, {}).get("technique", "property-based testing: generated histories against a reference model"),
        "level": "exploration",
        "level_note": NOTES.get(i, {}).get("note", "Searches generated inputs within the stated bounds; no exhaustiveness is claimed."),
    })
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not written yet"} for i in missing],
    "notes": "Checks run with /opt/venv/bin/python straight from /repo's working tree; nothing has to be built.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")

"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "level_notes.py")).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/checks/{i.lower()}.py") and i not in NOTES["NOT_READY"]:
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           evidence_file=f"evidence/{i}.json", technique=NOTES["TECH"].get(i, NOTES["DEFAULT_TECH"]), level="exploration",
                           level_note=NOTES["NOTE"].get(i, NOTES["DEFAULT_NOTE"])))
    else:
        na.append(dict(property=i, reason=NOTES["NA"].get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the machinery drives the public and internal Python/JS API of /repo's working tree directly.")
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])

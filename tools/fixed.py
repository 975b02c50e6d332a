"""python3 tools/fixed.py C12 <commit> <what>: record a repaired defect in known_findings.json"""
import json
import sys

F = "/verif/known_findings.json"
prop, commit, what = sys.argv[1:4]
d = json.load(open(F))
if not any(x.get("commit") == commit and x["property"] == prop for x in d):
    d.append({"property": prop, "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(F, "w"), indent=1, ensure_ascii=False)
open(F, "a").write("\n")

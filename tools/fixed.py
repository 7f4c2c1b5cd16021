"""tools/fixed.py ID PROPERTY COMMIT TEXT: record a repaired defect."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
i, prop, c, what = sys.argv[1:5]
d["findings"] = [f for f in d["findings"] if f["id"] != i]
d["findings"].append({"id": i, "property": prop, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, c, what)})
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)

"""addfix.py PROP COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, sys
p = "/verif/known_findings.json"
try:
    d = json.load(open(p))
except Exception:
    d = []
d.append({"property": sys.argv[1], "status": "fixed", "commit": sys.argv[2], "what": "fixed: property=%s %s %s" % tuple(sys.argv[1:4])})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in d) + "\n]\n")

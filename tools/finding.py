"""finding.py PID known|fixed KEY COMMIT NOTE: append to known_findings.json (never run by a check)"""
import json, os, sys
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(fn))
pid, st, key, com, note = sys.argv[1:6]
e = {"property": pid, "status": st, "key": key}
if st == "fixed":
    e["commit"] = com
    note = "fixed: property=%s %s %s" % (pid, com, note)
e["note"] = note
d["findings"] = [x for x in d["findings"] if not (x["property"] == pid and x["key"] == key)] + [e]
open(fn, "w").write('{"findings": [\n ' + ",\n ".join(json.dumps(x) for x in d["findings"]) + "\n]}\n")

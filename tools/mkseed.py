"""mkseed.py ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]  (demo.sh written separately): makes seeded/<ID>/patch.diff"""
import json, os, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "/repo dirty"
r = sys.argv[5:]
try:
    for f, o, n in zip(r[::3], r[1::3], r[2::3]):
        t = open("/repo/" + f).read()
        assert t.count(o) == 1, (f, t.count(o), o)
        open("/repo/" + f, "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"))

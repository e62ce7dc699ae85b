"""mut.py CHECK < spec: trials of edits. spec: blocks separated by '====' lines: FILE, then pairs OLD '---' NEW ... separated by '----'. Prints the verdict per block; /repo is restored."""
import os, subprocess, sys
R = os.environ.get("CALI_REPO", "/repo")
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace")
chk = sys.argv[1].split(",")
assert not sh("git -C %s status --short -uno" % R).stdout.strip()
for b in sys.stdin.read().split("\n====\n"):
    head, rest = b.strip("\n").split("\n", 1)
    fn, name = head.split(" ", 1)
    try:
        txt = open(R + "/" + fn, errors="surrogateescape").read()
        for e in rest.split("\n----\n"):
            old, new = (e.split("\n---\n") + [""])[:2] if "\n---\n" in e else (e.rstrip("-").rstrip("\n"), "")
            assert txt.count(old) == 1, (name, txt.count(old), old[:80])
            txt = txt.replace(old, new)
        open(R + "/" + fn, "w", errors="surrogateescape").write(txt)
        for c in chk:
            r = sh("cd /verif && (ulimit -v 12000000; timeout 900 python3 checks/run.py %s)" % c)
            o = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith(("  analysed","  rule")) and not l.startswith(chk[0]+" ")]
            print("[%s] %s exit %d  %s" % (name, c, r.returncode, " | ".join(x.strip()[:230] for x in o[:3])), flush=True)
    finally:
        sh("git -C %s checkout -- ." % R)

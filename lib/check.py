"""Scaffold shared by all checks: obligations, floors, known findings, evidence, verdict."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("EVID") or os.path.join(VERIF, "evidence")


class Broken(Exception):
    """The analysis itself cannot give an answer (anchor vanished, nothing matched)."""


class Check:
    def __init__(self, pid, title):
        self.pid, self.title = pid, title
        self.t0 = time.time()
        self.obl = []       # (rule, instance, where)
        self.viol = []      # (key, where, message)
        self.rules = {}
        self.analysed = {}
        self.samples = {}
        self.assume = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = {}
        if os.path.exists(kf):
            for e in json.load(open(kf))["findings"]:
                if e["property"] == pid and e.get("status") == "known":
                    self.known[e["key"]] = e

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, instance, where=""):
        self.obl.append((rule, instance, where, True))

    def bad(self, rule, instance, where, msg):
        """instance is a stable key: no line numbers"""
        self.obl.append((rule, instance, where, False))
        self.viol.append((rule + ": " + instance, where, msg))

    def decide(self, good, rule, instance, where, msg=""):
        if good:
            self.ok(rule, instance, where)
        else:
            self.bad(rule, instance, where, msg or "rule violated")
        return good

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def floor(self, what, n, minimum):
        """fails the analysis (not the property) when fewer instances than confirmed by hand are seen"""
        self.analysed[what] = n
        if n < minimum:
            raise Broken("%s: only %d found, at least %d expected - the rule lost its anchors" % (what, n, minimum))

    def need(self, x, what):
        if not x:
            raise Broken("anchor not found: " + what)
        return x

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        per = {}
        for r, i, w, g in self.obl:
            c = per.setdefault(r, {"text": self.rules.get(r, ""), "obligations": 0, "discharged": 0, "instances": []})
            c["obligations"] += 1
            c["discharged"] += 1 if g else 0
            if len(c["instances"]) < 25:
                c["instances"].append((i + " @ " + w) if w else i)
        seen, new, old = set(), [], []
        for k, w, m in self.viol:
            if (k, w) in seen:
                continue
            seen.add((k, w))
            (old if k in self.known else new).append((k, w, m))
        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current sources (LLVM IR of every translation unit of the "
                               "library and tools, and the syntax tree of the Python reader where stated); no code of "
                               "Caliper is executed. Every rule instance below was enumerated on this run.",
                "obligations": len(self.obl), "discharged": sum(1 for o in self.obl if o[3]),
                "analysed": self.analysed, "rules": per,
            },
            "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        print("%s %s" % (self.pid, self.title))
        for k, v in sorted(self.analysed.items()):
            print("  analysed %s: %s" % (k, v))
        for r, c in per.items():
            print("  rule %-28s %d/%d obligations discharged  (%s)" % (r, c["discharged"], c["obligations"], c["text"]))
        for k, w, m in old:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.pid, k, w, m))
        if not self.obl:
            raise Broken("no obligation was generated")
        if new:
            rp = os.path.join(EVID, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for k, w, m in new:
                    f.write("%s\n  at %s\n  %s\n  rule: %s\n\n" % (k, w, m, self.rules.get(k.split(":")[0], "")))
            for k, w, m in new:
                print("  ** %s\n     at %s: %s" % (k, w, m))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def main(check, body):
    """runs body(check); exit 0/1, or 2 when the analysis is broken"""
    try:
        body(check)
        rc = check.finish()
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (check.pid, e))
        # a violation already established stands even when a later rule lost its anchor
        rc = 2
        if [1 for k, w, m in check.viol if k not in check.known]:
            rc = check.finish()
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % check.pid)
        rc = 2
        if [1 for k, w, m in check.viol if k not in check.known]:
            rc = check.finish()
    sys.exit(rc)

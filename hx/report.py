"""Result of one check: obligations, violations, known findings, evidence file."""
import json, os, sys, time
from .extract import VERIF, AnalysisError

LEVEL_DEFAULT = "other"


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations = []       # (rule, where, what)
        self.violations = []        # dict(key, where, msg)
        self.cov = {}
        self.assumptions = []
        self.notes = []
        self.explanation = ""

    def ok(self, rule, where, what=""):
        self.obligations.append((rule, where, what, True))

    def bad(self, rule, where, key, msg, detail=None):
        """key: line-independent identity of the failing construct."""
        self.obligations.append((rule, where, msg, False))
        if any(v["key"] == key for v in self.violations): return
        self.violations.append({"rule": rule, "key": key, "where": where, "msg": msg, "detail": detail})

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def need(self, cond, what):
        """A rule whose anchors are gone decides nothing: error exit."""
        if not cond: raise AnalysisError("nothing to analyse: " + what)

    def finish(self):
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        known = {e["key"]: e for e in kf["findings"] if e["property"] == self.prop and e.get("status") == "open"}
        new = []
        for v in self.violations:
            if v["key"] in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, v["msg"], v["where"]))
            else:
                new.append(v)
        ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        by_rule = {}
        for r, w, m, good in self.obligations:
            d = by_rule.setdefault(r, {"obligations": 0, "discharged": 0, "samples": []})
            d["obligations"] += 1; d["discharged"] += good
            if len(d["samples"]) < 6 and good and (w, m) not in d["samples"]: d["samples"].append("%s: %s" % (w, m) if m else w)
        cov = {"explanation": self.explanation, "rules": by_rule, "obligations": len(self.obligations),
               "discharged": sum(1 for o in self.obligations if o[3]), "known_findings_reported": len(self.violations) - len(new)}
        cov.update(self.cov)
        doc = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": LEVEL_DEFAULT,
               "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.notes: doc["coverage"]["notes"] = self.notes
        json.dump(doc, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for r, d in sorted(by_rule.items()):
            print("  rule %s: %d obligations, %d discharged" % (r, d["obligations"], d["discharged"]))
        if new:
            rp = os.path.join(ev, self.prop + ".violations.json")
            json.dump(new, open(rp, "w"), indent=1)
            for v in new:
                print("  [%s] %s: %s" % (v["rule"], v["where"], v["msg"]))
                if v.get("detail"): print("      " + str(v["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s obligations=%d wall=%.1fs" % (self.prop, len(self.obligations), time.time() - self.t0))
        return 0

"""Outcome of one check: violations, known findings, evidence, exit status."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, build failure...)."""


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Report:
    def __init__(self, prop, tier, title=""):
        self.prop, self.tier = prop, tier
        self.v = {}              # key -> dict
        self.cov = {}
        self.notes = []
        self.assumptions = []
        self.t0 = time.time()

    def violation(self, key, where, msg, path=None):
        """key: stable identity of the construct (no line numbers)."""
        if key not in self.v:
            self.v[key] = {"key": key, "where": where, "message": msg, "path": path or []}

    def cover(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n if isinstance(n, (int, float)) else n

    def require(self, name, n, least):
        """Refuse to pass vacuously."""
        self.cov[name] = n
        if n < least:
            raise AnalysisError("only %d instance(s) of '%s' found, expected at least %d: the rule lost its anchor" % (n, name, least))

    def finish(self, explanation):
        known = {}
        for k in known_findings():
            if k["property"] == self.prop and k.get("status", "open") == "open":
                known[k["key"]] = k
        new = [v for k, v in sorted(self.v.items()) if k not in known]
        old = [v for k, v in sorted(self.v.items()) if k in known]
        evd = os.environ.get("PLY_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": dict(self.cov, explanation=explanation),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
            "assumptions": self.assumptions,
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes[:50]
        if old:
            ev["coverage"]["known_findings"] = [v["key"] for v in old]
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for v in old:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, known[v["key"]].get("what", v["message"]), v["key"], v["where"]))
        rp = os.path.join(evd, self.prop + "-violations.txt")
        if os.path.exists(rp):
            os.unlink(rp)
        if new:
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s\n  at %s\n  rule instance: %s\n" % (v["message"], v["where"], v["key"]))
                    for l in v["path"]:
                        f.write("    %s\n" % l)
            for v in new:
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  %s at %s [%s]" % (v["message"], v["where"], v["key"]))
                for l in v["path"][-14:]:
                    print("      %s" % l)
            return 1
        print("ok property=%s (%s) %s" % (self.prop, self.tier, ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, (int, float)))))
        return 0

#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current tree.

exit 0: held on everything analysed; 1: violation (VIOLATION line); 3: the
analysis could not run (anchor missing, source does not compile, ...)."""
import sys, os, time, json, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ir

EVID = os.path.join(ir.VERIF, "evidence")
KNOWN = os.path.join(ir.VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []
        self.known = []
        self.counts = {}
        self.rules = []
        self.samples = []
        self.configs = []
        self.assumptions = []
        self._known = load_known(prop)
        self._seen = set()

    def rule(self, text):
        self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def assume(self, s):
        self.assumptions.append(s)

    def floor(self, what, minimum):
        """a rule that matched (almost) nothing decides nothing"""
        if self.counts.get(what, 0) < minimum:
            raise ir.AnalysisBroken("%s: only %d instances, at least %d were confirmed by hand"
                                    % (what, self.counts.get(what, 0), minimum))

    def violation(self, key, where, msg):
        """key: stable identity of the finding (no line numbers)"""
        if key in self._seen:
            return
        self._seen.add(key)
        d = {"key": key, "where": where, "message": msg}
        if key in self._known:
            self.known.append(d)
        else:
            self.violations.append(d)


def load_known(prop):
    out = set()
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                out.add(ln.split(" key=", 1)[1].split(" :: ")[0].strip())
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    R = Report(prop, tier)
    try:
        mod = importlib.import_module(prop.lower())
        mod.check(R)
    except ir.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        # violations already established stand on their own
        if not R.violations:
            sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        if not R.violations:
            sys.exit(3)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "wall_s": round(wall, 2),
          "coverage": {"explanation": "static analysis of the LLVM IR of /repo's current sources, nothing executed; rule: "
                       + ("; ".join(R.rules) or "see DESIGN.md"),
                       "analysed": R.counts, "samples": R.samples, "known_findings": R.known, "found": R.violations},
          "assumptions": R.assumptions, "violations": len(R.violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in sorted(R.counts.items()):
        print("analysed %s: %d" % (k, v))
    for d in R.known:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (prop, d["key"], d["where"], d["message"]))
    if R.violations:
        rp = os.path.join(EVID, prop + "-violations.txt")
        with open(rp, "w") as f:
            for d in R.violations:
                f.write("%s\n  at %s\n  %s\n" % (d["key"], d["where"], d["message"]))
        for d in R.violations[:25]:
            print("  %s: %s [%s]" % (d["where"], d["message"], d["key"]))
        if len(R.violations) > 25:
            print("  ... and %d more in %s" % (len(R.violations) - 25, rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s (%.1fs)" % (prop, wall))
    sys.exit(0)


if __name__ == "__main__":
    main()

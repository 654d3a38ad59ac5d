"""Command line: decide one property on the current tree."""
import json
import os
import sys
import time

from . import model
from .engine import run_jobs
from .model import AnalysisBroken

LEVEL = "other"
FINDINGS = os.path.join(model.VERIF, "known-findings.txt")


def known(pid):
    """{finding text} listed for a property"""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    broken = None
    vs = []
    try:
        from . import rules
        jobs = rules.jobs_for(pid, tier)
        vs = run_jobs(jobs)
    except AnalysisBroken as e:
        broken = str(e)
    viol = [v for v in vs if v["verdict"] == "violated"]
    kn = known(pid)
    found = [v for v in viol if any(k == v["subject"] for k in kn)]
    viol = [v for v in viol if v not in found]
    und = [v for v in vs if v["verdict"] == "undecided"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation": "static value-flow analysis of the current source of /repo; each obligation names the construct and the rule",
            "obligations": len(vs), "holds": sum(v["verdict"] == "holds" for v in vs), "violated": len(viol),
            "known_findings": len(found), "undecided": len(und), "rules": sorted({v["rule"] for v in vs}),
            "analysis_error": broken, "items": vs,
        },
    }
    os.makedirs(os.path.join(model.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(model.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["subject"]))
    for v in und[:10]:
        print("undecided: %s [%s] %s" % (v["subject"], v["rule"], v["detail"][:200]))
    if broken:
        print("analysis not possible: %s" % broken[:500])
    if viol:
        rp = os.path.join(model.VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write("%s [%s]\n  at %s\n  %s\n" % (v["subject"], v["rule"], v["where"], v["detail"]))
        for v in viol[:6]:
            print("  %s [%s] at %s: %s" % (v["subject"], v["rule"], v["where"], v["detail"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations, %d hold, %d known findings, %d undecided, %.1f s" % (
        pid, len(vs), ev["coverage"]["holds"], len(found), len(und), ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

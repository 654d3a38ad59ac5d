"""developer tool: all properties at once on HLSA_REPO (jobs shared between properties run once)
usage: HLSA_REPO=dir python3 tools/allchecks.py [tier] [Cxx ...]"""
import os, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hlsa import model, engine, rules, check
args = sys.argv[1:]
tier = args.pop(0) if args and not args[0].startswith("C") else "quick"
pids = args or [c["property"] for c in json.load(open(model.VERIF + "/MANIFEST.json"))["checks"]]
t0 = time.time()
try:
    model.load("py", model.REPO)
except model.AnalysisBroken as e:
    print("BROKEN", str(e)[:500]); sys.exit(2)
jobs, owner = [], {}
for p in pids:
    for f, a in rules.jobs_for(p, tier):
        k = (f.__name__, repr(a))
        if k not in owner:
            owner[k] = (len(jobs), [])
            jobs.append((f, a))
        owner[k][1].append(p)
n = len(jobs)
if os.environ.get("FULL") != "1":
    # skip what cannot be affected: units none of whose code changed
    from hlsa.engine import Unit
    memo = {}
    def touched(cfg, name):
        if (cfg, name) not in memo:
            memo[(cfg, name)] = not Unit(rules.world(cfg), name).untouched()
        return memo[(cfg, name)]
    for i, (f, a) in enumerate(jobs):
        if f.__name__ == "contracts" :
            ks = [k for k in a[1] if touched(a[0], "key:" + k)]
            jobs[i] = (f, (a[0], ks) + tuple(a[2:])) if ks else None
        elif len(a) >= 2 and isinstance(a[1], str) and a[0] in ("py", "r") and (":" in a[1]):
            if not touched(a[0], a[1]): jobs[i] = None
        elif f.__name__ == "skips0" and not touched("py", a[1]):
            jobs[i] = None
n = sum(j is not None for j in jobs)
res = {}
def nothing():
    return []

names = []
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)
for i, j in enumerate(jobs):
    f, a = j if j is not None else (nothing, ())
    nm = "%s#%d" % (f.__name__, i)
    engine._work[nm] = f
    names.append((nm, a))
out = engine.run_named(names)
viol, und = {}, {}
for k, (i, ps) in owner.items():
    for v in out[i]:
        for p in ps:
            if v["verdict"] == "violated" and v["subject"] not in check.known(p):
                viol.setdefault(p, []).append(v)
            elif v["verdict"] == "undecided":
                und.setdefault(p, []).append(v)
for p in sorted(viol):
    print("VIOL", p, len(viol[p]))
    for v in viol[p][:int(os.environ.get("N", "2"))]:
        print("    %s [%s] %s: %s" % (v["subject"][:90], v["rule"], v["where"], v["detail"][:int(os.environ.get("W", "260"))]))
seen = set()
for p in sorted(und):
    print("UND ", p, len(und[p]))
    for v in und[p][:int(os.environ.get("N", "2"))]:
        if (v["subject"], v["detail"]) in seen: continue
        seen.add((v["subject"], v["detail"]))
        print("    %s [%s] %s: %s" % (v["subject"][:90], v["rule"], v["where"], v["detail"][:int(os.environ.get("W", "260"))]))
print("%d jobs %.0f s; violated: %s; undecided: %s" % (n, time.time() - t0, " ".join(sorted(viol)) or "-", " ".join(sorted(und)) or "-"))

"""python3 -m msfsa.run <property> : decides one property on /repo's working tree"""
import importlib, json, os, sys, time, traceback
from . import build
from .build import AnalysisBroken
from .ctx import Ctx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


EVID = os.environ.get("MSFSA_EVID") or os.path.join(VERIF, "evidence")

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                # finding: property=C01 key=<key> :: <what fails>
                h, _, what = l.partition(" :: ")
                prop = h.split("property=")[1].split()[0]
                key = h.split(" key=")[1]
                out.append((prop, key, what))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    cx = Ctx(prop, tier, seed)
    mod = importlib.import_module("msfsa.rules." + prop.lower())
    try:
        mod.check(cx)
    except AnalysisBroken as e:
        # a definite violation found before the analysis lost an anchor still stands
        if not cx.viols:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
            return 2
        print("note: analysis stopped early: %s" % e)
    kn = [(k, w) for p, k, w in known() if p == prop]
    new, old = [], []
    for v in cx.viols:
        m = [w for k, w in kn if k == v["key"]]
        (old if m else new).append((v, m))
    os.makedirs(EVID, exist_ok=True)
    byrule = {}
    for r, i, ok in cx.obs:
        d = byrule.setdefault(r, {"instances": 0, "met": 0})
        d["instances"] += 1
        d["met"] += 1 if ok else 0
    samples = []
    for r in byrule:
        samples += ["%s: %s" % (r, i) for rr, i, ok in cx.obs if rr == r][:3]
    nfun = len(cx.fns)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": "Static analysis of /repo's current sources: %d obligations of %d rules decided over %d functions reached "
                           "in %d translation units (%s). Nothing was executed." % (len(cx.obs), len(byrule), nfun, len(cx.units), ", ".join(cx.units)),
            "obligations": len(cx.obs), "discharged": sum(1 for o in cx.obs if o[2]),
            "rules": {r: {"text": cx.rules.get(r, ""), **byrule[r]} for r in byrule},
            "units": cx.units, "functions_analysed": nfun, "functions": sorted(cx.fns)[:60],
            "samples": samples[:40],
            "notes": cx.notes,
            "undecided": ["%s: %s at %s: %s" % o for o in cx.open][:40],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", ["ROS, dynamic_reconfigure and tf behave as their interfaces promise (functional stand-ins in /verif/ros)",
                                                    "exceptions and signals are not modelled"]),
        "wall_s": round(time.time() - cx.t0, 2), "violations": len(new),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v, m in old:
        print("KNOWN-FINDING: property=%s %s [%s at %s]" % (prop, m[0], v["rule"], v["where"]))
    print("property %s: %d obligations, %d met, %d rules, %d functions, %.1f s" % (
        prop, len(cx.obs), ev["coverage"]["discharged"], len(byrule), nfun, ev["wall_s"]))
    for o in cx.open[:20]:
        print("UNDECIDED rule=%s %s at %s: %s (not covered by this run)" % o)
    rp = os.path.join(EVID, prop + ".violation.txt")
    if not new and os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("rule     %s: %s\ninstance %s\nwhere    %s\nwhy      %s\nkey      %s\n" % (
                    v["rule"], cx.rules.get(v["rule"], ""), v["instance"], v["where"], v["msg"], v["key"]))
                for s in v["path"]:
                    f.write("   path  %s\n" % s)
                f.write("\n")
        for v, _ in new[:20]:
            print("  %s at %s: [%s] %s" % (v["instance"], v["where"], v["rule"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

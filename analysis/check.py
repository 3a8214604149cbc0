"""check.py <property>: decides one property on the current tree."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import dump as D
import rulelib
from rulelib import Ctx, Report, loc

EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(D.VERIF, "evidence"))
MODULES = ["rules_space", "rules_time", "rules_build", "rules_sched", "rules_search", "rules_timer", "rules_lock", "rules_accept", "rules_run", "rules_cli", "rules_builds", "rules_python", "rules_results", "rules_bench"]


def rules():
    r = {}
    for m in MODULES:
        r.update(importlib.import_module(m).RULES)
    return r


def known(prop):
    """keys of recorded findings"""
    r = {}
    p = os.path.join(D.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" | ") if "=" in x)
                if d.get("property") == prop:
                    r[d["key"]] = d.get("what", d["key"])
    return r


def key(o):
    return "%s @ %s: %s" % (o[1], o[2], o[3])


def main(argv):
    prop = argv[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx()
    except D.BuildError as e:
        print(e)
        print("ERROR: the tree does not build, nothing was decided")
        return 2
    R = Report(prop)
    rule = rules()[prop]
    with rulelib.guard(R, prop):
        rule(R, ctx)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of the current tree (debug and release flavours): summaries of the "
                           "functions below are computed by abstract interpretation with trace partitioning, and the rules of the "
                           "property are decided on them. undecided obligations are not alarms.",
            "tree_key": ctx.key,
            "functions_analysed": len(R.fns), "basic_blocks": len(R.blocks), "paths": R.paths, "loops": len(R.loops), "call_sites": R.sites,
            "obligations": len(R.ob), "discharged": R.count("ok"), "violated": R.count("bad"), "undecided": R.count("und"),
            "functions": sorted(R.fns)[:400],
            "rules": rule_table(R),
            "undecided_list": [key(o) for o in R.ob if o[0] == "und"][:60],
            "samples": [{"rule": o[1], "where": o[2], "obligation": o[3], "span": loc(o[4]), "verdict": o[0]} for o in R.ob[:8]],
            "notes": R.notes,
        },
        "wall_s": 0.0,
    }
    bads = R.bads()
    kn = known(prop)
    new = [o for o in bads if key(o) not in kn]
    ev["coverage"]["known_findings"] = sorted({key(o) for o in bads if key(o) in kn})
    os.makedirs(EVD, exist_ok=True)
    rep = os.path.join(EVD, prop + ".violations.txt")
    if os.path.exists(rep):
        os.remove(rep)
    ev["wall_s"] = round(time.time() - t0, 3)
    with open(os.path.join(EVD, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %d paths, %.1f s)" % (
        prop, len(R.ob), R.count("ok"), R.count("und"), R.count("bad"), len(R.fns), R.paths, time.time() - t0))
    for o in R.ob:
        if o[0] == "und":
            print("  undecided: %s" % key(o))
    for k in ev["coverage"]["known_findings"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    if new:
        with open(rep, "w") as f:
            for o in new:
                f.write("%s\n  rule:      %s\n  where:     %s %s\n  violated:  %s\n\n" % (key(o), o[1], o[2], loc(o[4]), o[3]))
        for o in new:
            print("  violated: %s  [%s]" % (key(o), loc(o[4])))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


def rule_table(R):
    r = {}
    for o in R.ob:
        d = r.setdefault(o[1], {"ok": 0, "bad": 0, "und": 0})
        d[o[0]] += 1
    return r


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

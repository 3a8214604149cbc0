import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
import check
T = {
}
NA = {
 "C26": "Statistical property of the random walk: whether a probabilistic search finds a pattern (and how good) depends on the distribution of the draws and on real time; no sound static argument over the source bounds it.",
 "C27": "Depends on the numeric values of memory and node counts at run time (for example difference and remaining nodes both zero); which combinations are reachable is a quantitative invariant of the search tree that dataflow on the source cannot establish. C16 decides the formulas themselves.",
 "C28": "Quantitative resource bound (memory per depth, number of visited states); the allocation behaviour and the size of the tree are run-time quantities.",
}
TECH = "abstract interpretation of MIR (value-numbering domain, loop summaries) and rules on the summaries"
NOTE = ("Static, on every run from the current source, for both debug and release code. An obligation is discharged for all inputs, or reported "
        "as violated with the construct, or left undecided (listed in the evidence, no alarm). Trusted: rustc's MIR, the summaries of the standard "
        "library and external crates in analysis/stdmodel.py and models/, the interpreter.")
r = check.rules()
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in r:
        t = T.get(p, (TECH, NOTE))
        man["checks"].append({"property": p, "quick_cmd": "bash check.sh %s" % p, "thorough_cmd": "bash check.sh %s" % p, "technique": t[0], "level": "other", "level_note": t[1]})
    else:
        man["not_applicable"].append({"property": p, "reason": NA.get(p, "no check yet (work in progress)")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

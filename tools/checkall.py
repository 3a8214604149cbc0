"""Development aid: several properties in one process; prints 'ID violated undecided'. SEARCH: the rules about the search on
one summary of the release code."""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
import check, rulelib, dump as D
from rulelib import Ctx, Report
try:
    ctx = Ctx()
except D.BuildError as e:
    print("BUILD", str(e)[-300:].replace("\n", " "))
    sys.exit(0)
rules = check.rules()
stop = "-x" in sys.argv


def search():
    import rules_search as S, rules_lock as L
    fns = [("C07", S.c07), ("C08", S.c08), ("C09", S.c09), ("C10", S.c10), ("C11", S.c11), ("C14", S.c14), ("C15", S.c15), ("C13", L.c13_search)]

    def job(t, p):
        def run(R):
            w = "%s %s" % (p, t)
            s = S.Scen(R, ctx, "off", "", t, p)
            for n, fn in fns:
                k = len(R.ob)
                with rulelib.guard(R, n, w):
                    fn(R, s, w)
        return run
    R = Report("SEARCH")
    rulelib.parallel(R, [("%s %s" % (p, t), job(t, p)) for t in (False, True) for p in ("det", "prob", "seed")], "SEARCH")
    return R


for p in [a for a in sys.argv[1:] if a != "-x"]:
    t = time.time()
    if p == "SEARCH":
        R = search()
    else:
        R = Report(p)
        with rulelib.guard(R, p):
            rules[p](R, ctx)
    bads = R.bads()
    print(p if p != "SEARCH" else "C07-15", len(bads), R.count("und"), "%.1f" % (time.time() - t), (check.key(bads[0])[:160] if bads else ""), flush=True)
    if stop and bads:
        break

"""C01 (memory accounting of a measurement step) and C22 (building a graph buffer)."""
import re
from rulelib import *

STATES = ("Sleeping", "InMemory", "Measured")
GRAPH_FOCUS = r"^<[\w:]*\bGraph<'_> as [\w:]*\bFocus<&\[usize\]>>::%s$"
SCHED_VEC = r"^<[\w:]*\bScheduler<'_, std::vec::Vec<usize>> as [\w:]*\bFocus<&\[usize\]>>::%s$"
SCHED_GEN = r"^<[\w:]*\bScheduler<'_, T> as [\w:]*\bFocus<&\[usize\]>>::%s$"


def find_loop(events, lid):
    for e in events:
        if isinstance(e, LoopEv) and e.loop.lid == lid:
            return e
    return None


def graph_fields(ctx, cfg="on"):
    return {m: accessor(ctx, "Graph", m, cfg) for m in ("nodes", "current_memory", "max_memory")}


def st_of(node):
    return fld(node, "0")


def is_state(node, v):
    t = st_of(node)
    VARIANTS[t] = STATES
    return isv(t, v)


def state_cases(facts, node):
    t = st_of(node)
    VARIANTS[t] = STATES
    return refine(facts, {v: isv(t, v) for v in STATES})


def phi_sibling(L, phiN, init):
    """the loop variable that lives in the same object as phiN and starts as init"""
    root = L.where[phiN][0]
    c = [p for p, (r, path) in L.where.items() if r == root and p is not phiN and L.entry[p] is init]
    return c[0] if len(c) == 1 else None


def mem_var(L, phiN, cpath):
    root, path = L.where[phiN]
    for p, (r, q) in L.where.items():
        if r == root and q and q[-1] == ("f", cpath[-1]) and p is not phiN:
            return p
    return None


def check_step(R, rule, where, out, g0, g1, mset, F, checked):
    """the graph after carrying out the step `mset` on g0 is g1"""
    f = out.facts
    N0, N1 = getp(g0, F["nodes"]), getp(g1, F["nodes"])
    C0, C1 = getp(g0, F["current_memory"]), getp(g1, F["current_memory"])
    M0, M1 = getp(g0, F["max_memory"]), getp(g1, F["max_memory"])
    span = None
    empty = decide(f, eq(length(mset), num(0)))
    if N1 is N0 and empty is not True:
        if C1 is C0 and M1 is M0 or not foreign(C1):
            R.bad(rule + "/applied", where, "a successful step leaves the node states unchanged")
        return
    if N1 is N0:
        R.check(compare(f, C1, C0), rule + "/leave", where, "an empty step changes nothing")
        return
    if N1.op != "phi":
        raise Undecided("node states after the step: %s" % short(N1))
    le_ = find_loop(out.events, N1.a[0])
    if le_ is None:
        raise Undecided("no loop for the node states")
    L, ex = le_.loop, le_.exit
    span = L.span
    phiN = N1
    if L.entry[phiN] is not N0 and contains(L.entry[phiN], lambda t: t.op == "phi"):
        raise Undecided("the step is carried out in several passes")
    phiC = mem_var(L, phiN, F["current_memory"])
    cexit = phiC if phiC is not None else C0
    R.check(compare(f, L.entry[phiN], N0), rule + "/start", where, "the step starts from the node states before it", span)
    if phiC is not None:
        R.check(compare(f, L.entry[phiC], C0), rule + "/start", where, "the step starts from the memory before it", span)
    n, comp = space(L)
    if n is None:
        for p in backs(L):
            # nodes are measured in this loop, and some leave memory in it
            u = p.upd.get(phiC) if phiC is not None else None
            if u is not None and p.upd.get(phiN) is not phiN and any(k < 0 and t.op == "len" for t, k in aff(u)[1].items()):
                # a step cut into pieces: how many there are is not known, but there may be several
                nx = {e.cid for e in p.events if isinstance(e, Ev) and re.search(r"slice::(iter::)?Chunks(Exact)?<.*next$", e.raw or e.name)}
                was = R.taint
                if nx and not any(foreign(c, lambda x: x.op in ("ret", "after") and x.a[0] in nx) for c in out.lits):
                    R.taint = 0
                R.bad(rule + "/leave", where, "measured nodes leave memory while the step is still being carried out", span)
                R.taint = was
                return
        raise Undecided("loop over the step is not counted")
    R.check(compare(f, n, length(mset)), rule + "/all-measured", where, "every node of the step is measured", span)
    if ex not in comp:
        R.bad(rule + "/all-measured", where, "the step is reported as done although the loop was left early", span)
    # after the step
    R.check(compare(f, C1, sub(cexit, length(mset))), rule + "/leave", where,
            "after the step the measured nodes leave memory: current memory decreases by the size of the step", span)
    phiM = mem_var(L, phiN, F["max_memory"])
    if phiM is None:
        for nme, g in refine(f, {"new peak": lt(M0, cexit), "no new peak": neg(lt(M0, cexit))}):
            R.check(compare(g, M1, cexit if nme == "new peak" else M0), rule + "/peak", where,
                    "the peak is the maximum of the old peak and the memory while the whole step is in memory", span)
    else:
        R.check(compare(f, L.entry[phiM], M0), rule + "/peak", where, "peak starts from the old peak", span)
        for nme, g in refine(f, {"new peak": lt(phiM, cexit), "no new peak": neg(lt(phiM, cexit))}):
            if nme == "new peak" and compare(g, M1, phiM):
                pass  # the loop keeps phiM >= cexit, checked below
            else:
                R.check(compare(g, M1, cexit if nme == "new peak" else phiM), rule + "/peak", where, "peak after the step", span)
        if cexit is not phiC:
            raise Undecided("peak changes in the loop but not the memory")
    for p in backs(L):
        if not feasible(p.facts):
            continue
        with guard(R, rule, where), R.under(p.lits):
            check_node(R, rule, where, L, p, phiN, phiC, phiM, mset, F, n, checked)


def check_node(R, rule, where, L, p, phiN, phiC, phiM, mset, F, n, checked):
    span = L.span
    # segments of the node states
    segs, v = [], p.upd[phiN]
    while v is not phiN:
        if v.op == "upd":
            segs.append(("write", v.a[1], v.a[2], v.a[0]))
            v = v.a[0]
        elif v.op == "phi" and v.a[0] != L.lid:
            le_ = find_loop(p.events, v.a[0])
            if le_ is None:
                raise Undecided("unknown loop in the node states")
            segs.append(("loop", le_, v, le_.loop.entry[v]))
            v = le_.loop.entry[v]
        else:
            raise Undecided("node states: %s" % short(v))
    segs.reverse()
    writes = [s for s in segs if s[0] == "write"]
    loops = [s for s in segs if s[0] == "loop"]
    elems = {w[1] for w in writes}
    good = [t for t in elems if t.op == "sel" and t.a[0] is mset and elem_index(L, t.a[1], n)]
    e = good[0] if good else None
    if e is None:
        # nothing written: which element does the loop look at?
        cand = {t for c in p.lits for t in subterms(c) if t.op == "sel" and t.a[0] is mset and elem_index(L, t.a[1], n)}
        if len(cand) == 1:
            e = cand.pop()
        elif len(backs(L)) == 1 and not writes and not loops:
            R.bad(rule + "/measured", where, "a node of the step is not marked as measured", span)
            return
        else:
            raise Undecided("element of the step not recognised")
    for w in writes:
        if w[1] is not e:
            if compare(p.facts, w[1], e) is not True:
                if foreign(w[1]):
                    raise Undecided("foreign index %s" % short(w[1]))
                R.bad(rule + "/measured", where, "the node that is marked is not the node of the step: %s" % short(w[1]), span)
                return
    # memory difference outside of the neighbour loops
    delta, vC = num(0), (p.upd[phiC] if phiC is not None else None)
    if vC is not None:
        for s in reversed(loops):
            Li = s[1].loop
            pc = mem_var(Li, s[2], F["current_memory"])
            if pc is not None and contains(vC, pc):
                delta = add(delta, sub(vC, pc))
                vC = Li.entry[pc]
        delta = add(delta, sub(vC, phiC))
    before = writes[0][3] if writes else phiN
    for V, g in state_cases(p.facts, sel(before, e)):
        d = g.simp(delta)
        if V == "Measured":
            if checked == "strict" and not foreign(d):
                continue  # C03 decides what a second measurement does
            for w in writes:
                R.check(compare(g, g.simp(w[2]), sel(w[3], e)) or decide(g, is_state(w[2], "Measured")), rule + "/no-reinit", where,
                        "a measured node stays measured", span)
            R.check(compare(g, d, num(0)), rule + "/count", where, "a measured node is not counted again", span)
            continue
        R.check(bool(writes), rule + "/measured", where, "a %s node of the step is marked as measured" % V, span)
        if writes:
            w = writes[-1]
            R.check(decide(g, is_state(w[2], "Measured")), rule + "/measured", where, "a %s node of the step becomes measured" % V, span)
            R.check(compare(g, fld(w[2], "1"), fld(sel(w[3], e), "1")), rule + "/adjacency", where, "the neighbour list of the node stays", span)
        R.check(compare(g, d, num(1 if V == "Sleeping" else 0)), rule + "/count", where,
                "measuring a node that is %s changes the memory by %d" % (V, 1 if V == "Sleeping" else 0), span)
        # neighbours
        if not loops and decide(g, eq(length(fld(sel(before, e), "1")), num(0))) is True:
            continue
        if not loops:
            R.bad(rule + "/neighbours", where, "the neighbours of a measured node (%s) are not initialised" % V, span)
            continue
        if len(loops) > 1:
            raise Undecided("several loops over neighbours")
        check_neighbours(R, rule, where, p, g, loops[0], e, F)
    # running peak
    if phiM is not None:
        cend, mend = p.upd[phiC], p.upd[phiM]
        for nme, g in refine(p.facts, {"new peak": lt(phiM, cend), "no new peak": neg(lt(phiM, cend))}):
            R.check(compare(g, mend, cend if nme == "new peak" else phiM), rule + "/peak", where,
                    "running peak after each node and its neighbours", span)


def check_neighbours(R, rule, where, p, g, seg, e, F):
    le_, phi, entry = seg[1], seg[2], seg[3]
    L, span = le_.loop, le_.loop.span
    n, comp = space(L)
    if n is None:
        raise Undecided("loop over the neighbours is not counted")
    if le_.exit not in comp:
        R.bad(rule + "/neighbours", where, "the loop over the neighbours is left early", span)
    # the sequence: neighbour list of node e in some version of the node states
    seqs = set()
    for q in L.paths:
        for t in list(q.lits) + list(q.upd.values()):
            for x in subterms(t):
                if x.op == "sel" and x.a[0].op == "fld" and x.a[0].a[1] == "1" and mentions(x.a[1], L):
                    seqs.add(x)
    nb = None
    for x in seqs:
        if elem_index(L, x.a[1], n):
            nb = x
    if nb is None and len(seqs) == 1:
        nb = seqs.pop()
        if covers(g, L, nb.a[1], n, length(nb.a[0])) is False:
            R.bad(rule + "/neighbours", where, "not every neighbour is visited: index %s, %s iterations" % (short(nb.a[1]), short(n)), span)
            return
        nb = None
    if nb is None:
        raise Undecided("neighbour not recognised")
    seq = nb.a[0]
    node = seq.a[0]
    if not (node.op == "sel" and compare(g, node.a[1], e) is True):
        if node.op == "sel" and not foreign(node):
            R.bad(rule + "/neighbours", where, "the loop runs over the neighbours of another node: %s" % short(seq), span)
            return
        raise Undecided("neighbour list %s" % short(seq))
    R.check(compare(g, n, length(seq)), rule + "/neighbours", where, "every neighbour is visited", span)
    pc = mem_var(L, phi, F["current_memory"])
    for q in backs(L):
        if not feasible(q.facts):
            continue
        base, ws = peel(q.upd[phi], (phi,))
        if base is not phi:
            raise Undecided("node states in the neighbour loop: %s" % short(q.upd[phi]))
        d0 = sub(q.upd[pc], pc) if pc is not None else num(0)
        with R.under(q.lits):
            check_neighbour(R, rule, where, phi, nb, d0, ws, q, span)


def check_neighbour(R, rule, where, phi, nb, d0, ws, q, span):
    if True:
        for V, h in state_cases(q.facts, sel(phi, nb)):
            d = h.simp(d0)
            R.check(compare(h, d, num(1 if V == "Sleeping" else 0)), rule + "/count-neighbour", where,
                    "a %s neighbour changes the memory by %d" % (V, 1 if V == "Sleeping" else 0), span)
            if V == "Sleeping":
                okw = len(ws) == 1 and compare(h, ws[0][1], nb) is True
                if not okw and any(foreign(w[1]) for w in ws):
                    raise Undecided("foreign index")
                R.check(okw, rule + "/initialise", where, "a sleeping neighbour is initialised", span)
                if okw:
                    R.check(decide(h, is_state(ws[0][2], "InMemory")), rule + "/initialise", where, "a sleeping neighbour is in memory afterwards", span)
                    R.check(compare(h, fld(ws[0][2], "1"), fld(sel(phi, nb), "1")), rule + "/adjacency", where, "the neighbour list of the neighbour stays", span)
            else:
                for w in ws:
                    R.check(compare(h, h.simp(w[2]), sel(phi, w[1])) or decide(h, is_state(w[2], V)), rule + "/no-reinit", where,
                            "a %s neighbour keeps its state" % V, span)


def c01(R, ctx):
    F = None
    with guard(R, "C01/fields"):
        F = graph_fields(ctx)
    if F is None:
        return
    # a new graph
    with guard(R, "C01/new"):
        b = ctx.find(r"\bGraph::<[^()]*>::new$")
        I, outs = summarise(R, ctx, b, names=["buf"])
        for o in outs:
            if o.kind != "ret":
                continue
            R.check(compare(o.facts, getp(o.ret, F["current_memory"]), num(0)), "C01/new", b["path"], "a new graph has no node in memory")
            R.check(compare(o.facts, getp(o.ret, F["max_memory"]), num(0)), "C01/new", b["path"], "the maximum memory of a new graph is zero")
            nd = getp(o.ret, F["nodes"])
            if nd.op == "gen":
                R.check(decide(o.facts, is_state(nd.a[1], "Sleeping")), "C01/new", b["path"], "all nodes of a new graph are asleep")
            else:
                R.und("C01/new", b["path"], "nodes are %s" % short(nd))
    # a step on a graph
    for cfg in ("on", "off"):
        for meth in ("focus_inplace", "focus"):
            with guard(R, "C01/step", "Graph::%s[%s]" % (meth, cfg)):
                b = ctx.find(GRAPH_FOCUS % meth, cfg)
                w = "Graph::%s" % meth + ("" if cfg == "on" else " (release)")
                I, outs = summarise(R, ctx, b, cfg, names=["g", "step"])
                g0, mset = mk("sym", "g"), mk("sym", "step")
                nok = 0
                for o in outs:
                    if o.kind != "ret" or not feasible(o.facts):
                        continue
                    if o.ret.op != "agg" or o.ret.a[1] not in ("Ok", "Err"):
                        raise Undecided("result %s" % short(o.ret))
                    if o.ret.a[1] == "Err":
                        continue
                    nok += 1
                    g1 = fld(o.ret, "Ok.0") if meth == "focus" else o.state.store[("P", "g")]
                    if meth == "focus":
                        R.check(compare(o.facts, o.state.store.get(("P", "g"), g0), g0), "C01/step/pure", w, "focus leaves the graph itself unchanged")
                    with guard(R, "C01", w), R.under(o.lits):
                        check_step(R, "C01/step", w, o, g0, g1, mset, F, "strict")
                if nok == 0:
                    R.und("C01/step", w, "no successful path")
    # the same through a scheduler, where release builds use their own versions
    sp = None
    with guard(R, "C01/scheduler"):
        sp = accessor(ctx, "Scheduler", "space")
    if sp is None:
        return
    for cfg in ("on", "off"):
        for meth, pat in (("focus_inplace", SCHED_VEC), ("focus", SCHED_GEN)):
            with guard(R, "C01/scheduler", "Scheduler::%s[%s]" % (meth, cfg)):
                b = ctx.find(pat % meth, cfg)
                w = "Scheduler::%s" % meth + ("" if cfg == "on" else " (release)")
                I, outs = summarise(R, ctx, b, cfg, names=["s", "step"], opaque=[r"PathGenerator<.*> as .*Focus<"])
                g0, mset = getp(mk("sym", "s"), sp), mk("sym", "step")
                for o in outs:
                    if o.kind != "ret" or not feasible(o.facts) or o.ret.op != "agg" or o.ret.a[1] != "Ok":
                        continue
                    s1 = fld(o.ret, "Ok.0") if meth == "focus" else o.state.store[("P", "s")]
                    with guard(R, "C01", w), R.under(o.lits):
                        check_step(R, "C01/scheduler", w, o, g0, getp(s1, sp), mset, F, "loose")


RULES = {"C01": c01}

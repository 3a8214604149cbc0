"""C02, C03 (path generator steps), C04 (enumeration of the steps), C23 (dependency structure)."""
from rulelib import *
from rules_space import find_loop, GRAPH_FOCUS, graph_fields, STATES, is_state

PG = r"\bPathGenerator<'_, %s>"
VEC = r"std::vec::Vec<usize>"
PART = r"[\w:]*\bPartition<std::vec::Vec<usize>>"
PG_FOCUS = r"^<[\w:]*" + PG + r" as [\w:]*\bFocus<&\[usize\]>>::%s$"
PG_NEXT = r"^<[\w:]*" + PG % PART + r" as [\w:]*\bFocusIterator>::%s$"


def ms_summary(ctx, cfg, t):
    """dispatch the sealed trait MeasurableSet of a generic body to the implementation for t"""
    def h(c, args):
        own, meth = c.I.std.owner_method(c.fname)
        if own != "MeasurableSet" or c.t.get("rk") in c.I.prog.bodies:
            return None
        b = ctx.find(r"^<%s as [\w:]*\bMeasurableSet>::%s$" % (t, meth), cfg)
        return c.invoke(b, args)
    return [(re.compile(r"MeasurableSet>?::(init|set)$"), h)]


def pg_fields(ctx, cfg="on"):
    """names of the private fields of a path generator, from its public accessors and its behaviour"""
    key = ("pgf", cfg)
    if key in ctx.cache:
        return ctx.cache[key]
    a = find_adt(ctx, "PathGenerator", cfg)
    names = [f["n"] for f in a["v"][0]["f"]]
    tys = {f["n"]: f["ty"] for f in a["v"][0]["f"]}
    meas = accessor(ctx, "PathGenerator", "measurable", cfg)
    cnt = [n for n in names if "HashMap" in tys[n] or "BTreeMap" in tys[n]]
    dep = [n for n in names if n not in cnt and (n,) != meas]
    if len(cnt) != 1 or len(dep) != 1:
        raise Undecided("fields of PathGenerator")
    r = ctx.cache[key] = {"meas": meas, "cnt": (cnt[0],), "dep": (dep[0],)}
    return r


# ------------------------------------------------------------------ measurable set minus measured set
def search_loop(p, elem, lst):
    """the loop of path p that looks for elem in lst: (LoopEv, found: True / False / None)"""
    for e in p.events:
        if not isinstance(e, LoopEv):
            continue
        L = e.loop
        n, comp = space(L)
        if n is None or compare(p.facts, n, length(lst)) is not True:
            continue
        bs = backs(L)
        if not bs:
            continue
        hit = [x for b in bs for c in b.lits for x in subterms(c) if x.op == "sel" and x.a[0] is lst and elem_index(L, x.a[1], n)]
        if not hit:
            continue
        if any(decide(b.facts, eq(hit[0], elem)) is not False for b in bs):
            continue
        if e.exit in comp:
            return e, False
        if decide(e.exit.facts, eq(hit[0], elem)) is True:
            return e, True
    return None, None


def member(p, elem, lst):
    """is elem known to be in / not in lst on path p"""
    d = p.facts.decide(mk("in", elem, lst))
    if d is not None:
        return d
    return search_loop(p, elem, lst)[1]


def find_partition(out, S, mset):
    """the loop over the measurable set S that takes apart a copy of mset"""
    r = []
    for e in out.events:
        if isinstance(e, LoopEv):
            rest = [v for v, i in e.loop.entry.items() if i is mset]
            new = [v for v, i in e.loop.entry.items() if i is VEC0]
            if len(rest) == 1:
                r.append((e, rest[0], new[0] if len(new) == 1 else None))
    return r[0] if len(r) == 1 else None


def origin(out, v, stop=None):
    """what the list v was before the loops of this path extended it (None: it is not built by loops)"""
    for _ in range(10):
        if v.op != "phi" or v is stop:
            return v
        le_ = find_loop(out.events, v.a[0])
        if le_ is None:
            return None
        for q in backs(le_.loop):
            w = q.upd[v]
            while w.op == "push":
                w = w.a[0]
            if w is not v and not (w.op == "phi" and origin(q, w, v) is v):
                return None
        v = le_.loop.entry[v]
    return None


def drops_all(p, v, src):
    """v is src without all entries of some value, however often they occur"""
    if v.op != "phi":
        return False
    le_ = find_loop(p.events, v.a[0])
    if le_ is None or le_.loop.entry.get(v) is not VEC0:
        return False
    n, comp = space(le_.loop)
    if n is None or compare(p.facts, n, length(src)) is not True or le_.exit not in comp:
        return False
    drop = False
    for q in backs(le_.loop):
        w = q.upd[v]
        if w is v:
            if any(x.op == "phi" for c in q.lits for x in subterms(c) if mentions(x, le_.loop)) or any(foreign(c) for c in q.lits):
                return False
            drop = True
        elif not (w.op == "push" and w.a[0] is v and w.a[1] is sel(src, K(le_.loop))):
            return False
    return drop


def check_partition(R, rule, where, le_, rest, new, S, mset, parts):
    """parts: which sides are checked ('new', 'rest')"""
    L, span = le_.loop, le_.loop.span
    n, comp = space(L)
    if n is None:
        raise Undecided("loop over the measurable set is not counted")
    elems = set()
    for p in L.paths:
        ts = list(p.lits) + list(p.upd.values()) + [c for e in p.events if isinstance(e, LoopEv) for q in e.loop.paths for c in q.lits]
        for t in ts:
            for x in subterms(t):
                if x.op == "sel" and x.a[0] is S and mentions(x.a[1], L):
                    elems.add(x)
    elems = list(elems)
    if len(elems) != 1:
        raise Undecided("element of the measurable set not recognised")
    e = elems[0]
    R.check(covers(le_.exit.facts, L, e.a[1], n, length(S)), rule + "/all", where, "every measurable node is considered", span)
    if le_.exit not in comp:
        R.bad(rule + "/all", where, "the loop over the measurable set is left early", span)
    for p in backs(L):
        if not feasible(p.facts):
            continue
        with guard(R, rule, where), R.under(p.lits):
            vr, vn = p.upd[rest], (p.upd[new] if new is not None else None)
            m = member(p, e, rest)
            if m is None:
                raise Undecided("membership of a measurable node in the request")
            if "rest" in parts:
                if m:
                    okr = None
                    if vr.op in ("swaprem", "rem") and vr.a[0] is rest:
                        okr = compare(p.facts, sel(rest, vr.a[1]), e)
                    elif vr is rest or drops_all(p, vr, rest):
                        okr = False
                    R.check(okr, rule + "/take", where, "a requested measurable node is taken out of the request exactly once", span)
                else:
                    R.check(vr is rest or (False if vr.op in ("swaprem", "rem") else None), rule + "/take", where, "only measurable nodes are taken out of the request", span)
            if "new" in parts and vn is not None:
                if m:
                    R.check(True if vn is new else (False if vn.op == "push" and vn.a[0] is new else None), rule + "/measured-leaves", where,
                            "a measured node leaves the measurable set", span)
                else:
                    R.check(True if vn.op == "push" and vn.a[0] is new and compare(p.facts, vn.a[1], e) else (False if vn is new or vn.op == "push" and vn.a[0] is new and not foreign(vn) else None),
                            rule + "/unmeasured-stays", where, "a measurable node that is not measured stays measurable", span)


# ------------------------------------------------------------------ updating the counters
def check_update(R, rule, where, out, cnt0, cnt1, new0, new1, mset, deps):
    """counters and measurable set after measuring mset"""
    f = out.facts
    if cnt1 is cnt0:
        if decide(f, eq(length(mset), num(0))) is True:
            R.check(compare(f, new1, new0), rule + "/none", where, "nothing is measured: nothing becomes measurable")
        elif not foreign(new1):
            R.bad(rule + "/applied", where, "measuring nodes does not touch the dependency counters")
        return
    if cnt1.op != "phi":
        raise Undecided("counters after the step: %s" % short(cnt1))
    le_ = find_loop(out.events, cnt1.a[0])
    if le_ is None:
        raise Undecided("no loop for the counters")
    L, span = le_.loop, le_.loop.span
    phiC = cnt1
    n, comp = space(L)
    if n is None:
        raise Undecided("loop over the step is not counted")
    phiN = new1 if new1.op == "phi" and new1.a[0] == L.lid else None
    if phiN is None:
        if new1 is new0:
            R.bad(rule + "/freed", where, "no node becomes measurable", span)
            return
        raise Undecided("measurable set after the step: %s" % short(new1))
    R.check(compare(f, L.entry[phiC], cnt0), rule + "/start", where, "counters start from the old ones", span)
    R.check(compare(f, L.entry[phiN], new0), rule + "/start", where, "the new measurable set starts with what was not measured", span)
    R.check(compare(f, n, length(mset)), rule + "/all-measured", where, "the dependents of every measured node are considered", span)
    if le_.exit not in comp:
        R.bad(rule + "/all-measured", where, "the update is left early", span)
    for p in backs(L):
        if not feasible(p.facts):
            continue
        with guard(R, rule, where), R.under(p.lits):
            vC, vN = p.upd[phiC], p.upd[phiN]
            if vC is phiC and vN is phiN:
                # fine only without dependents
                ds = {x for c in p.lits for x in subterms(c) if x.op == "sel" and x.a[0] is deps}
                if len(ds) == 1 and decide(p.facts, eq(length(list(ds)[0]), num(0))) is True:
                    continue
                if p.lits and not ds:
                    raise Undecided("an iteration without effect")
                R.bad(rule + "/dependents", where, "the dependents of a measured node are not updated", span)
                continue
            if vC.op != "phi":
                raise Undecided("counters: %s" % short(vC))
            ie = find_loop(p.events, vC.a[0])
            if ie is None:
                raise Undecided("no loop over the dependents")
            check_dependents(R, rule, where, L, p, ie, vC, vN, phiC, phiN, mset, deps, n)


def check_dependents(R, rule, where, L, p, ie, iC, iN, phiC, phiN, mset, deps, n):
    M, span = ie.loop, ie.loop.span
    m, comp = space(M)
    if m is None:
        raise Undecided("loop over dependents is not counted")
    if iN.op != "phi" or iN.a[0] != M.lid:
        if iN is phiN:
            R.bad(rule + "/freed", where, "no dependent becomes measurable", span)
            return
        raise Undecided("measurable set in the update: %s" % short(iN))
    R.check(compare(p.facts, M.entry[iC], phiC), rule + "/start", where, "counters are carried along", span)
    R.check(compare(p.facts, M.entry[iN], phiN), rule + "/start", where, "freed nodes are carried along", span)
    if ie.exit not in comp:
        R.bad(rule + "/dependents", where, "the loop over the dependents is left early", span)
    ds = set()
    for q in M.paths:
        for t in list(q.lits) + list(q.upd.values()):
            for x in subterms(t):
                if x.op == "sel" and x.a[0].op == "sel" and x.a[0].a[0] is deps and mentions(x.a[1], M):
                    ds.add(x)
    if len(ds) != 1:
        raise Undecided("dependent not recognised")
    d = ds.pop()
    row = d.a[0]
    me = row.a[1]
    if not (me.op == "sel" and me.a[0] is mset and elem_index(L, me.a[1], n)):
        if foreign(me):
            raise Undecided("row %s" % short(row))
        c = covers(p.facts, L, me.a[1], n, length(mset)) if me.op == "sel" and me.a[0] is mset else False
        R.check(c, rule + "/dependents", where, "the dependents are those of the measured nodes: %s" % short(row), span)
        if c is not True:
            return
    R.check(covers(p.facts, M, d.a[1], m, length(row)), rule + "/dependents", where, "every dependent is considered", span)
    for q in M.paths:
        if q.kind not in ("back", "exit") or q is ie.exit or q in comp:
            continue
        if q.kind == "exit" and feasible(q.facts):
            R.und(rule + "/dependents", where, "other exit", span)
    c = hget(iC, d)
    for q in backs(M):
        if not feasible(q.facts):
            continue
        with guard(R, rule, where), R.under(q.lits):
            g = q.facts.assume(has(iC, d))
            if not feasible(g):
                # the ordering is inconsistent: the node is not blocked any more
                continue
            for nme, h in refine(g, {"last": eq(c, num(1)), "not last": lt(num(1), c)}):
                vC, vN = q.upd[iC], q.upd[iN]
                if nme == "last":
                    R.check(compare(h, vC, hdel(iC, d)), rule + "/last", where, "a node whose last dependency is measured is not blocked any more", span)
                    R.check(compare(h, vN, vpush(iN, d)), rule + "/last", where, "a node whose last dependency is measured becomes measurable", span)
                else:
                    R.check(compare(h, vC, hput(iC, d, sub(c, num(1)))), rule + "/not-last", where, "one outstanding dependency less for every other dependent", span)
                    R.check(compare(h, vN, iN), rule + "/not-last", where, "a node with outstanding dependencies stays blocked", span)


# ------------------------------------------------------------------ C02
def focus_bodies(ctx, cfg):
    """(label, body, summaries, in place?) for every instance of the checked steps"""
    r = []
    for meth in ("focus_inplace", "focus"):
        for nme, t in (("Vec", VEC), ("Partition", PART)):
            try:
                b = ctx.find(PG_FOCUS % ("T", meth), cfg)
            except Undecided:
                continue
            r.append(("PathGenerator<%s>::%s" % (nme, meth), b, ms_summary(ctx, cfg, t), meth == "focus_inplace", nme))
    return r


def set_of(v, nme):
    """the measurable nodes of a measurable set value"""
    if nme == "Vec":
        return v
    return fld(v, "set")


def c02(R, ctx):
    for cfg in ("on", "off"):
        rel = "" if cfg == "on" else " (release)"
        F = None
        with guard(R, "C02/fields"):
            F = pg_fields(ctx, cfg)
        if F is None:
            continue
        for label, b, sums, inplace, nme in focus_bodies(ctx, cfg):
            with guard(R, "C02/step", label + rel):
                I, outs = summarise(R, ctx, b, cfg, names=["g", "step"], summaries=sums)
                g0, mset = mk("sym", "g"), mk("sym", "step")
                S = set_of(getp(g0, F["meas"]), nme)
                for o in outs:
                    if o.kind != "ret" or o.ret.op != "agg" or o.ret.a[1] != "Ok" or not feasible(o.facts):
                        continue
                    with guard(R, "C02/step", label + rel), R.under(o.lits):
                        g1 = o.state.store[("P", "g")] if inplace else fld(o.ret, "Ok.0")
                        pt = find_partition(o, S, mset)
                        if pt is None or pt[2] is None:
                            base = origin(o, set_of(getp(g1, F["meas"]), nme))
                            if pt is not None and base is VEC0:
                                R.bad("C02/partition/unmeasured-stays", label + rel, "the nodes that were measurable and are not measured are lost", pt[0].loop.span)
                                continue
                            raise Undecided("no loop over the measurable set")
                        check_partition(R, "C02/partition", label + rel, pt[0], pt[1], pt[2], S, mset, ("new",))
                        check_update(R, "C02/update", label + rel, o, getp(g0, F["cnt"]), getp(g1, F["cnt"]), pt[2],
                                     set_of(getp(g1, F["meas"]), nme), mset, getp(g0, F["dep"]))
                        R.check(compare(o.facts, getp(g1, F["dep"]), getp(g0, F["dep"])), "C02/dependents-fixed", label + rel, "the dependency structure stays")
        # enumerated steps
        with guard(R, "C02/next", "PathGenerator::next_and_focus" + rel):
            b = ctx.find(PG_NEXT % "next_and_focus", cfg)
            w = "PathGenerator::next_and_focus" + rel
            I, outs = summarise(R, ctx, b, cfg, names=["g"], opaque=[r"Partition<.*> as .*Iterator>::next$|Partition.*::next$"])
            g0 = mk("sym", "g")
            for o in outs:
                if o.kind != "ret" or o.ret.op != "agg" or o.ret.a[1] != "Some" or not feasible(o.facts):
                    continue
                with guard(R, "C02/next", w), R.under(o.lits):
                    g1, mset = fld(fld(o.ret, "Some.0"), "0"), fld(fld(o.ret, "Some.0"), "1")
                    src = [e for e in o.events if isinstance(e, Ev) and contains(mset, e.ret)]
                    if len(src) != 1:
                        raise Undecided("measured part %s" % short(mset))
                    parts = fld(src[0].ret, "Some.0")
                    if mset not in (fld(parts, "0"), fld(parts, "1")):
                        raise Undecided("measured part %s" % short(mset))
                    kept = fld(parts, "1" if mset is fld(parts, "0") else "0")
                    check_update(R, "C02/next", w, o, getp(g0, F["cnt"]), getp(g1, F["cnt"]), kept, fld(getp(g1, F["meas"]), "set"), mset, getp(g0, F["dep"]))
                    R.check(compare(o.facts, getp(g1, F["dep"]), getp(g0, F["dep"])), "C02/dependents-fixed", w, "the dependency structure stays")
        # queries
        for nme, t in (("Vec", VEC), ("Partition", PART)):
            for q in ("num_remaining_nodes", "has_unmeasureable"):
                with guard(R, "C02/" + q, q + rel):
                    b = ctx.find(r"\bPathGenerator::<'_, T>::%s$" % q, cfg)
                    I, outs = summarise(R, ctx, b, cfg, names=["g"], summaries=ms_summary(ctx, cfg, t))
                    g0 = mk("sym", "g")
                    cnt, S = getp(g0, F["cnt"]), set_of(getp(g0, F["meas"]), nme)
                    for o in outs:
                        if o.kind == "panic":
                            R.und("C02/" + q, b["path"] + rel, "panics")
                            continue
                        want = add(length(S), hlen(cnt)) if q == "num_remaining_nodes" else neg(eq(hlen(cnt), num(0)))
                        with R.under(o.lits):
                            if q == "has_unmeasureable":
                                for v, h in refine(o.facts, {"some": lt(num(0), hlen(cnt)), "none": eq(hlen(cnt), num(0))}):
                                    d = decide(h, o.ret)
                                    R.check(None if d is None else d == (v == "some"), "C02/" + q, b["path"] + rel, "the blocked query is true exactly if some node is blocked")
                            else:
                                R.check(compare(o.facts, o.ret, want), "C02/" + q, b["path"] + rel, "the remaining nodes are the measurable and the blocked ones")


# ------------------------------------------------------------------ C03
def known_request(t):
    """conditions that only depend on the request and on what is measurable"""
    for x in subterms(t):
        if x.op in ("has", "hget", "hput", "hdel", "hlen", "hold"):
            return False
    return True


def c03(R, ctx):
    for cfg in ("on", "off"):
        rel = "" if cfg == "on" else " (release)"
        F = None
        with guard(R, "C03/fields"):
            F = pg_fields(ctx, cfg)
        if F is not None:
            for label, b, sums, inplace, nme in focus_bodies(ctx, cfg):
                with guard(R, "C03/generator", label + rel):
                    c03_generator(R, ctx, cfg, label + rel, b, sums, inplace, nme, F)
        for meth in ("focus_inplace", "focus"):
            with guard(R, "C03/graph", "Graph::%s" % meth + rel):
                c03_graph(R, ctx, cfg, meth, "Graph::%s" % meth + rel)


def sizes_only(l, S, mset, also=()):
    """a condition on nothing but the numbers of nodes that are measurable and asked for (and what also lists)"""
    ok = (length(S), length(mset)) + tuple(also)
    t = l.a[0] if l.op == "not" else l
    if t.op not in ("lt0", "eq0", "eq"):
        return False
    return all(y in ok or y.op == "k" for x in t.a for y in aff(x)[1])


def by_size(o, S, mset):
    return not [e for e in o.events if isinstance(e, (LoopEv, Ev))] and all(sizes_only(l, S, mset) for l in o.lits)


def twice_accepted(o, S, mset):
    """the request is only compared element by element with the measurable set: does asking for a node twice pass?"""
    rej = []
    for e in o.events:
        if not isinstance(e, LoopEv):
            continue
        L = e.loop
        if space(L)[0] is not length(mset):
            continue
        x = sel(mset, K(L))
        for v, t in L.entry.items():
            if not (t.op in ("vec0",) or length(t) is num(0)):
                continue
            good = bool(backs(L))
            for p in backs(L):
                ls = [l for l in p.lits if not sizes_only(l, S, mset)]
                u = p.upd.get(v)
                inn = mk("in", x, S)
                if len(ls) == 1 and ls[0] is inn and u is v:
                    continue
                if len(ls) == 1 and ls[0].op == "not" and ls[0].a[0] is inn and u is not None and u.op == "push" and u.a[0] is v and u.a[1] is x:
                    continue
                good = False
            if good:
                rej.append(v)
    if not rej:
        return False
    for l in o.lits:
        if not sizes_only(l, S, mset, [length(v) for v in rej]):
            return False
    two = o.facts.assume(lt(num(1), length(S))).assume(lt(num(1), length(mset)))
    return feasible(two)


def c03_generator(R, ctx, cfg, w, b, sums, inplace, nme, F):
    I, outs = summarise(R, ctx, b, cfg, names=["g", "step"], summaries=sums)
    g0, mset = mk("sym", "g"), mk("sym", "step")
    S = set_of(getp(g0, F["meas"]), nme)
    dep = getp(g0, F["dep"])
    done = set()
    for o in outs:
        if not feasible(o.facts):
            continue
        with guard(R, "C03/generator", w), R.under(o.lits):
            if o.kind == "panic":
                # a panic is a violation when only the request decides about it
                lits = list(o.lits)
                okp = any(not known_request(c) for c in lits)
                R.check(okp or (False if not any(foreign(c) for c in lits) else None), "C03/no-panic", w, "a request of any size and content does not panic")
                continue
            if o.ret.op != "agg" or o.ret.a[1] not in ("Ok", "Err"):
                raise Undecided("result %s" % short(o.ret))
            pt = find_partition(o, S, mset)
            if pt is None:
                # without a look at the request there is no way to accept it
                if o.ret.a[1] == "Ok" and not [e for e in o.events if isinstance(e, LoopEv)] and decide(o.facts, eq(length(mset), num(0))) is not True:
                    R.bad("C03/accept", w, "a request is accepted without being compared with the measurable nodes")
                    continue
                if o.ret.a[1] == "Ok" and twice_accepted(o, S, mset):
                    R.bad("C03/accept", w, "a request that names a measurable node twice is accepted: every entry is only looked up in the measurable set")
                    continue
                if o.ret.a[1] == "Err" and by_size(o, S, mset):
                    f = o.facts.assume(lt(num(0), length(S))).assume(lt(num(0), length(mset)))
                    if feasible(f) and compare(f, fld(fld(o.ret, "Err.0"), "0"), mset) is True:
                        R.bad("C03/error", w, "the error carries exactly the offending entries; a request is rejected by its size alone, and all of it is reported")
                        continue
                raise Undecided("request is not taken apart in a loop over the measurable set")
            le_, rest, new = pt
            if le_.loop.lid not in done:
                done.add(le_.loop.lid)
                check_partition(R, "C03/partition", w, le_, rest, new, S, mset, ("rest",))
            emp = decide(o.facts, eq(length(rest), num(0)))
            if o.ret.a[1] == "Ok":
                R.check(strict(o.facts, o.lits, eq(length(rest), num(0)), (rest, new)), "C03/accept", w, "a request is accepted only if every entry of it was measurable")
            else:
                R.check(strict(o.facts, o.lits, lt(num(0), length(rest)), (rest, new)), "C03/reject", w, "an admissible request never errors")
                pay = fld(o.ret, "Err.0")
                R.check(compare(o.facts, fld(pay, "0"), rest), "C03/error", w, "the error carries exactly the offending entries")
                g1 = o.state.store.get(("P", "g"), g0)
                gone = any(x.op == "op" and x.a[0] == "default" for x in [getp(g1, F[n]) for n in F] if hasattr(x, "op"))
                R.check(False if gone else compare(o.facts, g1, g0), "C03/untouched", w, "a rejected request leaves the generator as it was")
    # sizes: differences of lengths of the inputs must not wrap around
    for key, (a, bb, facts, span) in I.underflow.items():
        ins = [x for t in (a, bb) for x in subterms(t) if x.op in ("phi", "k", "hget", "ret", "after", "unk", "op", "const", "hlen", "sel")]
        if not ins:
            h = facts.assume(lt(a, bb))
            R.check(not feasible(h), "C03/size", w, "a request that is larger than the measurable set does not wrap around: %s - %s" % (short(a), short(bb)), span)


def c03_graph(R, ctx, cfg, meth, w):
    F = graph_fields(ctx, cfg)
    b = ctx.find(GRAPH_FOCUS % meth, cfg)
    I, outs = summarise(R, ctx, b, cfg, names=["g", "step"])
    g0, mset = mk("sym", "g"), mk("sym", "step")
    loops = {}
    for o in outs:
        if not feasible(o.facts):
            continue
        if o.kind == "panic":
            with R.under(o.lits):
                R.check(any(foreign(c) for c in o.lits) and None, "C03/graph-panic", w, "measuring does not panic")
            continue
        for e in o.events:
            if isinstance(e, LoopEv):
                loops[e.loop.lid] = e.loop
        if o.ret.op == "agg" and o.ret.a[1] == "Err":
            with guard(R, "C03/graph", w), R.under(o.lits):
                pay = fld(fld(o.ret, "Err.0"), "0")
                le_ = [e for e in o.events if isinstance(e, LoopEv)]
                L = le_[-1].loop
                n, comp = space(L)
                if n is None or not (pay.op == "sel" and pay.a[0] is mset):
                    if foreign(pay):
                        raise Undecided("error %s" % short(pay))
                    R.bad("C03/graph-error", w, "the error names %s instead of the node" % short(pay))
                    continue
                R.check(True if elem_index(L, pay.a[1], n) else None, "C03/graph-error", w, "the error names the node that was already measured")
                phi = [v for v, i in L.entry.items() if i is getp(g0, F["nodes"])]
                if len(phi) != 1:
                    raise Undecided("node states")
                d = decide(o.facts, is_state(sel(phi[0], pay), "Measured"))
                R.check(d, "C03/graph-error", w, "only an already measured node is an error")
    # a measured node never passes silently
    for L in loops.values():
        phi = [v for v, i in L.entry.items() if i is getp(g0, F["nodes"])]
        n, comp = space(L)
        if len(phi) != 1 or n is None:
            R.und("C03/graph-pass", w, "loop over the step")
            continue
        e = sel(mset, K(L))
        rev = sel(mset, sub(sub(n, num(1)), K(L)))
        for p in backs(L):
            with guard(R, "C03/graph", w), R.under(p.lits):
                if any(contains(c, rev) for c in p.lits):
                    e = rev
                h = p.facts.assume(is_state(sel(phi[0], e), "Measured"))
                R.check(not feasible(h), "C03/graph-pass", w, "measuring an already measured node is an error", L.span)


# ------------------------------------------------------------------ C04
def check_merge(R, rule, where, out, S, subset, inn, outn):
    """inn collects the elements of S whose index is in subset, outn the others"""
    if inn.op != "phi" or outn.op != "phi" or inn.a[0] != outn.a[0]:
        raise Undecided("parts %s / %s" % (short(inn), short(outn)))
    le_ = find_loop(out.events, inn.a[0])
    if le_ is None:
        raise Undecided("no loop for the parts")
    L, span = le_.loop, le_.loop.span
    n, comp = space(L)
    if n is None:
        raise Undecided("loop over the set is not counted")
    R.check(compare(out.facts, L.entry[inn], VEC0), rule, where, "the parts start empty", span)
    R.check(compare(out.facts, L.entry[outn], VEC0), rule, where, "the parts start empty", span)
    R.check(compare(out.facts, n, length(S)), rule, where, "every element of the set is put into one of the parts", span)
    if le_.exit not in comp:
        R.bad(rule, where, "the loop over the set is left early", span)
    k = K(L)
    # the position in the sorted subset
    others = [v for v in L.entry if v not in (inn, outn)]
    pos = [v for v in others if L.entry[v] is num(0)]
    pk = [v for v in others if L.entry[v] is NONE]
    for p in backs(L):
        if not feasible(p.facts):
            continue
        with guard(R, rule, where), R.under(p.lits):
            x = sel(S, k)
            d = p.facts.decide(mk("in", k, subset))
            if d is None:
                le2, d2 = search_loop(p, k, subset)
                d = d2
            alts = [(d, p.facts)]
            if d is None:
                alts = merge_head(p, L, subset, pos, pk, k, R, rule, where, span)
            if alts is None:
                raise Undecided("membership of the index in the subset")
            for d, f in alts:
                for v, want in ((inn, vpush(inn, x) if d else inn), (outn, outn if d else vpush(outn, x))):
                    R.check(compare(f, p.upd[v], want), rule, where, "an element is in exactly the part its index says", span)


def merge_head(p, L, subset, pos, pk, k, R, rule, where, span):
    """two-pointer merge with the (sorted) subset: is the next subset element the current index?
    Also checks that exactly a matching head is consumed."""
    if len(pos) != 1:
        return None
    pos = pos[0]
    n = length(subset)
    f = p.facts

    def head(f, posv, pkv):
        if pkv is not None:
            s = f.decide(isv(pkv, "Some"))
            if s is True:
                y = fld(pkv, "Some.0")
                t = f.decide(isv(y, "Some"))
                return ("some", fld(y, "Some.0")) if t is True else ("none",) if t is False else None
            if s is not False and f.decide(isv(pkv, "None")) is not True:
                return None
        t = f.decide(lt(posv, n))
        return ("some", sel(subset, posv)) if t is True else ("none",) if t is False else None
    pkv = pk[0] if pk else None
    h0 = head(f, pos, pkv)
    if h0 is None:
        return None
    if h0[0] == "none":
        alts = [(False, f)]
    else:
        # every subset element below the index is consumed already (that is what is checked), so the head is not smaller
        alts = [(nme == "eq", g) for nme, g in refine(f, {"eq": eq(h0[1], k), "gt": lt(k, h0[1])})]
        if not alts:
            alts = [(False, f)]
    for match, f in alts:
        merge_step(p, f, match, h0, pos, pkv, R, rule, where, span)
    return alts


def merge_step(p, f, match, h0, pos, pkv, R, rule, where, span):
    pos1 = p.upd.get(pos, pos)
    pk1 = p.upd.get(pkv, pkv) if pkv is not None else None
    # what is pending afterwards
    if match:
        # consumed: nothing peeked and the position is one further than the head's
        peeked_before = pkv is not None and f.decide(isv(pkv, "Some")) is True
        want = pos if peeked_before else add(pos, num(1))
        okc = compare(f, pos1, want) and (pkv is None or f.decide(isv(pk1, "None")) is True or pk1 is NONE)
        R.check(bool(okc), rule, where, "a matched subset element is consumed", span)
    else:
        if pkv is not None and pk1.op == "agg" and pk1.a[1] == "Some" or pkv is not None and f.decide(isv(pk1, "Some")) is True:
            y = fld(pk1, "Some.0")
            if h0[0] == "none":
                okc = f.decide(isv(y, "None"))
            else:
                okc = f.decide(isv(y, "Some")) is True and f.same(fld(y, "Some.0"), h0[1])
            # the peeked element is not read again from the sequence
            if pkv is not None and f.decide(isv(pkv, "Some")) is True:
                okc = okc and pos1 is pos
            elif h0[0] == "some":
                okc = okc and compare(f, pos1, add(pos, num(1)))
        else:
            okc = pos1 is pos
        R.check(bool(okc), rule, where, "an unmatched subset element stays pending", span)


def powerset_of(v):
    """upper end of the range whose power set an iterator value enumerates"""
    if v.op == "op" and v.a[0] == "powerset" and len(v.a) == 2:
        r = v.a[1]
        if r.op == "agg" and r.a[0].endswith("Range") and fld(r, "start") is num(0):
            return fld(r, "end")
        return False
    return None


def part_fields(ctx, cfg):
    a = find_adt(ctx, "Partition", cfg)
    fs = a["v"][0]["f"]
    it = [f["n"] for f in fs if "Powerset" in f["ty"]]
    st = [f["n"] for f in fs if "Powerset" not in f["ty"]]
    if len(it) != 1 or len(st) != 1:
        raise Undecided("fields of Partition")
    return st[0], it[0]


def c04(R, ctx):
    for cfg in ("on", "off"):
        rel = "" if cfg == "on" else " (release)"
        sf = itf = None
        with guard(R, "C04/fields"):
            sf, itf = part_fields(ctx, cfg)
        if sf is None:
            continue
        allow = lambda x: x.op == "op" and x.a[0] == "powerset"
        # a new partition enumerates the subsets of all its indices
        for label, pat, names in (("MeasurableSet::init", r"^<%s as [\w:]*\bMeasurableSet>::init$" % PART, ["set"]), ("Partition::new", r"\bPartition::<T>::new$", ["set", "len"])):
            with guard(R, "C04/init", label + rel):
                b = ctx.find(pat, cfg)
                I, outs = summarise(R, ctx, b, cfg, names=names)
                for o in outs:
                    if o.kind != "ret":
                        continue
                    with R.under(o.lits):
                        R.check(compare(o.facts, fld(o.ret, sf), mk("sym", "set")), "C04/init", label + rel, "the partition is one of the given set")
                        e = powerset_of(fld(o.ret, itf))
                        want = length(mk("sym", "set")) if len(names) == 1 else mk("sym", "len")
                        R.check(False if e is False else None if e is None else compare(o.facts, e, want), "C04/init", label + rel, "all subsets of all indices are enumerated")
        with guard(R, "C04/set", "MeasurableSet::set" + rel):
            for t, acc in ((PART, lambda v: fld(v, sf)), (VEC, lambda v: v)):
                b = ctx.find(r"^<%s as [\w:]*\bMeasurableSet>::set$" % t, cfg)
                I, outs = summarise(R, ctx, b, cfg, names=["s"])
                for o in outs:
                    R.check(compare(o.facts, o.ret, acc(mk("sym", "s"))), "C04/set", b["path"] + rel, "the measurable nodes are the whole set")
            b = ctx.find(r"^<%s as [\w:]*\bMeasurableSet>::init$" % VEC, cfg)
            I, outs = summarise(R, ctx, b, cfg, names=["s"])
            for o in outs:
                R.check(compare(o.facts, o.ret, mk("sym", "s")), "C04/set", b["path"] + rel, "the measurable nodes are the whole set")
        with guard(R, "C04/default", "Partition::default" + rel):
            b = ctx.find(r"^<[\w:]*\bPartition<T> as std::default::Default>::default$", cfg)
            I, outs = summarise(R, ctx, b, cfg)
            for o in outs:
                if o.kind == "ret":
                    e = powerset_of(fld(o.ret, itf))
                    R.check(False if e is False else None if e is None else compare(o.facts, e, num(0)), "C04/default", "Partition::default" + rel, "an empty partition has only the empty step")
        # one step of the enumeration
        roles = None
        with guard(R, "C04/next", "Partition::next" + rel):
            b = ctx.find(r"^<%s as std::iter::Iterator>::next$" % PART, cfg)
            w = "Partition::next" + rel
            I, outs = summarise(R, ctx, b, cfg, names=["p"])
            p0 = mk("sym", "p")
            S = fld(p0, sf)
            for o in outs:
                if o.kind != "ret" or not feasible(o.facts):
                    continue
                with guard(R, "C04/next", w), R.under(o.lits):
                    nx = [e for e in o.events if isinstance(e, Ev) and e.name.endswith("Powerset::next")]
                    if len(nx) != 1 or nx[0].pre[0] is not fld(p0, itf):
                        if len(nx) > 1:
                            R.bad("C04/next", w, "a subset is dropped")
                            continue
                        raise Undecided("enumeration of the subsets")
                    R.check(compare(o.facts, fld(o.state.store[("P", "p")], sf), S), "C04/next", w, "the set stays")
                    if o.ret.a[1] == "None":
                        R.check(decide(o.facts, isv(nx[0].ret, "None")), "C04/next", w, "the enumeration ends only after the last subset")
                        continue
                    v = fld(o.ret, "Some.0")
                    L1, L2 = fld(v, "0"), fld(v, "1")
                    subset = fld(nx[0].ret, "Some.0")
                    # which component holds the subset?
                    sub_n = len(R.ob)
                    T = Report("C04")
                    try:
                        check_merge(T, "x", w, o, S, subset, L1, L2)
                    except Exception:
                        pass
                    if T.count("bad") == 0 and T.count("und") == 0 and T.count("ok"):
                        roles = ("0", "1")
                        check_merge(R, "C04/next", w, o, S, subset, L1, L2)
                    else:
                        T2 = Report("C04")
                        try:
                            check_merge(T2, "x", w, o, S, subset, L2, L1)
                        except Exception:
                            pass
                        if T2.count("bad") == 0 and T2.count("und") == 0 and T2.count("ok"):
                            roles = ("1", "0")
                            check_merge(R, "C04/next", w, o, S, subset, L2, L1)
                        else:
                            check_merge(R, "C04/next", w, o, S, subset, L1, L2)
        # the step built from it
        for cls in ("PathGenerator", "Scheduler"):
            w = cls + "::next_and_focus" + rel
            with guard(R, "C04/step", w):
                b = ctx.find(r"^<[\w:]*\b%s<'_, %s> as [\w:]*\bFocusIterator>::next_and_focus$" % (cls, PART), cfg)
                F = pg_fields(ctx, cfg)
                I, outs = summarise(R, ctx, b, cfg, names=["g"], opaque=[r"Partition<.*> as .*Iterator>::next$", r"Graph<.*> as .*Focus<|Graph::.*::focus\w*$", r"update_unchecked$"])
                g0 = mk("sym", "g")
                for o in outs:
                    if o.kind != "ret" or not feasible(o.facts):
                        continue
                    with guard(R, "C04/step", w), R.under(o.lits):
                        nx = [e for e in o.events if isinstance(e, Ev) and e.args and re.search(r"Iterator::next$|Partition.*next$", e.name)]
                        if len(nx) != 1:
                            if len(nx) > 1:
                                R.bad("C04/step", w, "a partition is dropped")
                                continue
                            raise Undecided("no partition is drawn")
                        parts = fld(nx[0].ret, "Some.0")
                        if roles is None:
                            raise Undecided("parts")
                        kept, meas = fld(parts, roles[0]), fld(parts, roles[1])
                        tp = F["meas"] if cls == "PathGenerator" else accessor(ctx, "Scheduler", "time", cfg) + F["meas"]
                        sizes = eq(add(length(kept), length(meas)), length(fld(getp(g0, tp), sf)))
                        fs = o.facts.assume(sizes)
                        if not feasible(fs):
                            continue
                        if o.ret.a[1] == "None":
                            d = o.facts.decide(isv(nx[0].ret, "None"))
                            if d is not True:
                                d = strict(fs, list(o.lits) + [sizes], eq(length(meas), num(0)))
                                if d is not True and decide(o.facts, eq(length(kept), num(0))) is True:
                                    d = False
                            if d is None and cls == "Scheduler":
                                raise Undecided("other end")
                            R.check(d, "C04/end", w, "the steps end only when nothing is left to measure in the step")
                            continue
                        R.check(compare(o.facts, fld(fld(o.ret, "Some.0"), "1"), meas), "C04/order", w, "the reported step is the measured part: first the whole measurable set, then ever smaller ones")
                        R.check(strict(fs, list(o.lits) + [sizes], lt(num(0), length(meas))),
                                "C04/nonempty", w, "a step is never empty")
                        if cls == "PathGenerator":
                            g1 = fld(fld(o.ret, "Some.0"), "0")
                            m1 = getp(g1, F["meas"])
                            e = powerset_of(fld(m1, itf))
                            R.check(False if e is False else None if e is None else compare(o.facts, e, length(fld(m1, sf))), "C04/fresh", w,
                                    "the next state enumerates all subsets of its measurable set", None)
                            ups = [e for e in o.events if isinstance(e, Ev) and e.name.endswith("update_unchecked")]
                            if len(ups) == 1:
                                st = [a for a in ups[0].pre if a in (kept, meas)]
                                R.check(True if kept in st else False if meas in [a for a in ups[0].pre[3:]] else None, "C04/kept", w, "what is not measured in a step stays measurable")
                            else:
                                base = fld(m1, sf)
                                if base.op == "phi":
                                    le_ = find_loop(o.events, base.a[0])
                                    base = le_.loop.entry[base] if le_ else base
                                R.check(True if base is kept else False if base in (meas, VEC0) else None, "C04/kept", w, "what is not measured in a step stays measurable")
        # leaves
        with guard(R, "C04/leaf", "PathGenerator::at_leaf" + rel):
            b = ctx.find(PG_NEXT % "at_leaf", cfg)
            w = "PathGenerator::at_leaf" + rel
            I, outs = summarise(R, ctx, b, cfg, names=["g"])
            S = fld(getp(mk("sym", "g"), pg_fields(ctx, cfg)["meas"]), sf)
            for o in outs:
                if o.kind != "ret":
                    continue
                with R.under(o.lits):
                    for v, h in refine(o.facts, {"leaf": eq(length(S), num(0)), "inner": lt(num(0), length(S))}):
                        d = decide(h, isv(o.ret, "Some"))
                        R.check(None if d is None else d == (v == "leaf"), "C04/leaf", w, "a state is a leaf exactly if nothing is measurable")
        with guard(R, "C04/leaf", "Scheduler::at_leaf" + rel):
            b = ctx.find(r"^<[\w:]*\bScheduler<'_, %s> as [\w:]*\bFocusIterator>::at_leaf$" % PART, cfg)
            w = "Scheduler::at_leaf" + rel
            I, outs = summarise(R, ctx, b, cfg, names=["s"])
            tm = accessor(ctx, "Scheduler", "time", cfg)
            S = fld(getp(getp(mk("sym", "s"), tm), pg_fields(ctx, cfg)["meas"]), sf)
            for o in outs:
                if o.kind != "ret":
                    continue
                with R.under(o.lits):
                    for v, h in refine(o.facts, {"leaf": eq(length(S), num(0)), "inner": lt(num(0), length(S))}):
                        d = decide(h, isv(o.ret, "Some"))
                        R.check(None if d is None else d == (v == "leaf"), "C04/leaf", w, "a state is a leaf exactly if nothing is measurable")
        for cls in ("PathGenerator", "Scheduler"):
            with guard(R, "C04/sweep", cls + "::into_iter" + rel):
                b = ctx.find(r"^<[\w:]*\b%s<'_, %s> as std::iter::IntoIterator>::into_iter$" % (cls, PART), cfg)
                I, outs = summarise(R, ctx, b, cfg, names=["s"])
                for o in outs:
                    if o.kind == "ret":
                        c = getp(o.ret, accessor(ctx, "Sweep", "current", cfg))
                        s = getp(o.ret, accessor(ctx, "Sweep", "stack", cfg))
                        R.check(compare(o.facts, c, mk("sym", "s")), "C04/sweep", cls + "::into_iter" + rel, "a sweep starts at the given state")
                        R.check(compare(o.facts, s, VEC0), "C04/sweep", cls + "::into_iter" + rel, "a sweep starts without parent state")


RULES = {"C02": c02, "C03": c03, "C04": c04}

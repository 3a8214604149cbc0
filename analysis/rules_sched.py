"""C05 (sweep), C06 (time and space half of a scheduler), C21 (trivial schedule)."""
from rulelib import *
from rules_space import find_loop, graph_fields
from rules_time import pg_fields, PART, VEC

CFGS = (("on", ""), ("off", " (release)"))


# ------------------------------------------------------------------ C05
def c05(R, ctx):
    for cfg, rel in CFGS:
        cur = stk = None
        with guard(R, "C05/fields"):
            cur, stk = accessor(ctx, "Sweep", "current", cfg), accessor(ctx, "Sweep", "stack", cfg)
        if cur is None:
            continue
        s0 = mk("sym", "s")
        C0, S0 = getp(s0, cur), getp(s0, stk)
        with guard(R, "C05/next", "Sweep::next" + rel):
            c05_next(R, ctx, cfg, "Sweep::next" + rel, cur, stk, s0, C0, S0)
        with guard(R, "C05/skip", "Sweep::skip_current" + rel):
            w = "Sweep::skip_current" + rel
            I, outs = summarise(R, ctx, ctx.find(r"\bSweep::<T>::skip_current$", cfg), cfg, names=["s"])
            for o in outs:
                if not feasible(o.facts):
                    continue
                with guard(R, "C05/skip", w), R.under(o.lits):
                    if o.kind == "panic":
                        R.bad("C05/skip", w, "a skip does not panic")
                        continue
                    s1 = o.state.store[("P", "s")]
                    for nme, f in refine(o.facts, {"empty": eq(length(S0), num(0)), "some": lt(num(0), length(S0))}):
                        e = decide(f, isv(o.ret, "Err"))
                        R.check(None if e is None else e == (nme == "empty"), "C05/skip", w, "a skip fails exactly if there is no parent state")
                        if nme == "empty":
                            R.check(compare(f, getp(s1, cur), C0), "C05/skip", w, "a failed skip changes nothing")
                            R.check(compare(f, getp(s1, stk), S0), "C05/skip", w, "a failed skip changes nothing")
                        else:
                            check_pop(R, "C05/skip", w, f, s1, cur, stk, S0)
        with guard(R, "C05/new", "Sweep::new" + rel):
            I, outs = summarise(R, ctx, ctx.find(r"\bSweep::<T>::new$", cfg), cfg, names=["init"])
            for o in outs:
                if o.kind == "ret":
                    R.check(compare(o.facts, getp(o.ret, cur), mk("sym", "init")), "C05/new", "Sweep::new" + rel, "a sweep starts at the given state")
                    R.check(compare(o.facts, length(getp(o.ret, stk)), num(0)), "C05/new", "Sweep::new" + rel, "a sweep starts without parent state")


def check_pop(R, rule, w, f, s1, cur, stk, S0):
    n1 = sub(length(S0), num(1))
    i = mk("sym", "below")
    R.check(compare(f, getp(s1, cur), sel(S0, n1)), rule, w, "going back restores exactly the state that was left last")
    R.check(compare(f, length(getp(s1, stk)), n1), rule, w, "going back takes exactly one state from the stack")
    g = f.assume(lt(i, n1))
    if feasible(g):
        R.check(compare(g, sel(getp(s1, stk), i), sel(S0, i)), rule, w, "older states stay on the stack")


def c05_next(R, ctx, cfg, w, cur, stk, s0, C0, S0):
    I, outs = summarise(R, ctx, ctx.find(r"^<[\w:]*\bSweep<T> as std::iter::Iterator>::next$", cfg), cfg, names=["s"])
    seen = set()
    for o in outs:
        if not feasible(o.facts):
            continue
        with guard(R, "C05/next", w):
            evs = [e for e in o.events if isinstance(e, Ev)]
            nf = [e for e in evs if e.name.endswith("next_and_focus")]
            lf = [e for e in evs if e.name.endswith("at_leaf")]
            with R.under([c for c in o.lits if not mentions_ev(c, nf + lf)]):
                if o.kind == "panic":
                    R.bad("C05/next", w, "a sweep does not panic")
                    continue
                if len(nf) != 1:
                    if len(nf) > 1 or not foreign_calls(evs, ("next_and_focus", "at_leaf")):
                        R.bad("C05/next", w, "every step asks the current state for its next child exactly once")
                        continue
                    raise Undecided("next child")
                e = nf[0]
                R.check(e.pre[0] is C0, "C05/next", w, "the next child is the one of the current state")
                left = after_of(o, e)
                s1 = o.state.store[("P", "s")]
                d = o.facts.decide(isv(e.ret, "Some"))
                if d is None:
                    raise Undecided("outcome")
                if d:
                    item = fld(e.ret, "Some.0")
                    ok_ = o.ret.op == "agg" and o.ret.a[1] == "Some" and fld(o.ret, "Some.0").a[1:2] == ("Forward",)
                    R.check(ok_, "C05/forward", w, "going down is reported as forward step")
                    if ok_:
                        R.check(compare(o.facts, fld(fld(o.ret, "Some.0"), "Forward.0"), fld(item, "1"), loose(e)), "C05/forward", w, "a forward step carries the item of the child")
                    R.check(compare(o.facts, getp(s1, cur), fld(item, "0"), loose(e)), "C05/forward", w, "a forward step moves to the child")
                    R.check(compare(o.facts, getp(s1, stk), vpush(S0, left), loose(e)), "C05/forward", w, "a forward step keeps exactly the state that was left")
                    seen.add("fwd")
                    continue
                for nme, f in refine(o.facts, {"empty": eq(length(S0), num(0)), "some": lt(num(0), length(S0))}):
                    r = decide(f, isv(o.ret, "None"))
                    R.check(None if r is None else r == (nme == "empty"), "C05/end", w, "the sweep ends exactly if there is no parent state")
                    if nme == "some" and r is False:
                        check_pop(R, "C05/back", w, f, s1, cur, stk, S0)
                        st = fld(o.ret, "Some.0")
                        R.check(st.a[1] == "Backward" if st.op == "agg" else None, "C05/back", w, "going up is reported as backward step")
                        if st.op == "agg" and st.a[1] == "Backward":
                            v = fld(st, "Backward.0")
                            if len(lf) == 1:
                                R.check(compare(f, v, lf[0].ret, loose(lf[0])), "C05/leaf", w, "the leaf item of the state that is left is reported")
                                R.check(lf[0].pre[0] is left or lf[0].pre[0] is C0 or (False if lf[0].pre[0] is getp(s1, cur) else None), "C05/leaf", w, "the leaf item is the one of the state that is left")
                            elif not lf:
                                R.bad("C05/leaf", w, "the leaf item of the state that is left is lost")
                            else:
                                raise Undecided("leaf item")
                        seen.add("back")
                    else:
                        seen.add("end")
    for x in ("fwd", "back", "end"):
        if x not in seen:
            R.und("C05/next", w, "no path for %s" % x)


def mentions_ev(c, evs):
    return any(contains(c, e.ret) for e in evs)


def foreign_calls(evs, known):
    return [e for e in evs if not any(e.name.endswith(k) for k in known)]


def loose(*evs):
    """results of known calls are not foreign"""
    cids = {e.cid for e in evs}
    return lambda x: x.op in ("ret", "after") and x.a[0] in cids


def after_of(o, e, k=0):
    """value of the receiver after the call"""
    return mk("after", e.cid, k)


# ------------------------------------------------------------------ C06
def c06(R, ctx):
    for cfg, rel in CFGS:
        tp = sp = None
        with guard(R, "C06/fields"):
            tp, sp = accessor(ctx, "Scheduler", "time", cfg), accessor(ctx, "Scheduler", "space", cfg)
        if tp is None:
            continue
        opq = [r"PathGenerator<.*> as .*Focus(Iterator)?\b.*>::", r"Graph<.*> as .*Focus<", r"Graph::<.*>::\w*(focus|measure|unchecked)\w*$"]
        for label, pats, inplace in (("Scheduler::focus_inplace", [r"\bScheduler<'_, T> as [\w:]*\bFocus<&\[usize\]>>::focus_inplace$"], True),
                                     ("Scheduler::focus", [r"\bScheduler<'_, T> as [\w:]*\bFocus<&\[usize\]>>::focus$"], False),
                                     ("Scheduler::next_and_focus", [r"\bScheduler<'_, %s> as [\w:]*\bFocusIterator>::next_and_focus$" % PART], None)):
            w = label + rel
            with guard(R, "C06/step", w):
                b = None
                for pt in pats:
                    b = ctx.find(pt, cfg)
                I, outs = summarise(R, ctx, b, cfg, names=["s", "step"][: b["argc"]], opaque=opq)
                c06_step(R, w, outs, tp, sp, inplace)
        with guard(R, "C06/new", "Scheduler::new" + rel):
            I, outs = summarise(R, ctx, ctx.find(r"\bScheduler::<'[_\w]+, T>::new$", cfg), cfg, names=["t", "g"])
            for o in outs:
                if o.kind == "ret":
                    R.check(compare(o.facts, getp(o.ret, tp), mk("sym", "t")), "C06/new", "Scheduler::new" + rel, "a scheduler uses the given order")
                    R.check(compare(o.facts, getp(o.ret, sp), mk("sym", "g")), "C06/new", "Scheduler::new" + rel, "a scheduler uses the given graph")
        with guard(R, "C06/leaf", "Scheduler::at_leaf" + rel):
            w = "Scheduler::at_leaf" + rel
            b = ctx.find(r"^<[\w:]*\bScheduler<'_, %s> as [\w:]*\bFocusIterator>::at_leaf$" % PART, cfg)
            I, outs = summarise(R, ctx, b, cfg, names=["s"])
            mx = getp(getp(mk("sym", "s"), sp), accessor(ctx, "Graph", "max_memory", cfg))
            for o in outs:
                if o.kind == "ret" and feasible(o.facts) and o.facts.decide(isv(o.ret, "Some")) is not False:
                    with R.under(o.lits):
                        R.check(compare(o.facts, fld(o.ret, "Some.0"), mx), "C06/leaf", w, "the item at a leaf is the peak memory of the scheduler's own graph")
        with guard(R, "C06/api", "public API" + rel):
            c06_api(R, ctx, cfg, rel)


def c06_step(R, w, outs, tp, sp, inplace):
    s0, step = mk("sym", "s"), mk("sym", "step")
    T0, S0 = getp(s0, tp), getp(s0, sp)
    some_ok = False
    for o in outs:
        if not feasible(o.facts):
            continue
        with guard(R, "C06/step", w):
            evs = [e for e in o.events if isinstance(e, Ev)]
            te = [e for e in evs if e.pre and derives(e.pre[0], T0, evs)]
            se = [e for e in evs if e.pre and derives(e.pre[0], S0, evs)]
            te = [e for e in te if re.search(r"focus", e.name)]
            al = loose(*(te + se))
            if o.kind == "panic":
                # accepted: the order was advanced and the graph disagrees (a debug build reports it)
                continue
            with R.under(o.lits, al):
                if len(te) != 1:
                    if len(te) > 1:
                        R.bad("C06/time", w, "the order is advanced more than once")
                        continue
                    if se:
                        R.bad("C06/time", w, "the graph is advanced without the order")
                        continue
                    raise Undecided("the order is not advanced by a focus operation")
                t = te[0]
                meth = t.name.split("::")[-1]
                s1 = o.state.store[("P", "s")]
                if inplace is None:
                    okv = "Some"
                    d = o.facts.decide(isv(t.ret, "Some"))
                    want = fld(fld(t.ret, "Some.0"), "1")
                else:
                    okv = "Ok"
                    d = o.facts.decide(isv(t.ret, "Ok"))
                    if d is None and o.facts.decide(isv(t.ret, "Err")) is not None:
                        d = not o.facts.decide(isv(t.ret, "Err"))
                    R.check(t.pre[1] is step or compare(o.facts, t.pre[1], step, al), "C06/time", w, "the order is advanced by the requested step")
                    want = step
                if d is None:
                    if o.ret.op == "agg" and o.ret.a[1] == okv and inplace is not None:
                        R.bad("C06/error", w, "a rejected step is not noticed")
                        continue
                    raise Undecided("outcome of the order")
                if not d:
                    rej = o.ret.op == "agg" and o.ret.a[1] in ("Err", "None")
                    R.check(rej, "C06/error", w, "a rejection or the end of the order is passed on")
                    # the graph is untouched
                    g1 = getp(s1, sp)
                    R.check(True if g1 is S0 or all(is_after(g1, e) and pure_op(e) for e in se) and se else (None if not se else False), "C06/reject", w, "a rejected step does not touch the graph")
                    if inplace is not None and rej:
                        pay = fld(o.ret, "Err.0")
                        R.check(True if pay.op == "agg" and pay.a[1] == "NotMeasurable" and compare(o.facts, fld(pay, "NotMeasurable.0"), fld(t.ret, "Err.0"), al) else
                                (False if pay.op == "agg" else None), "C06/error", w, "the error of the order is passed on")
                    continue
                # accepted by the order
                gerr = [e for e in se if o.facts.decide(isv(e.ret, "Err")) is True]
                if gerr:
                    if o.ret.op == "agg" and o.ret.a[1] in ("Ok", "Some"):
                        R.bad("C06/error", w, "an error of the graph is dropped")
                    continue
                if not (o.ret.op == "agg" and o.ret.a[1] == okv):
                    R.check(False if o.ret.op == "agg" else None, "C06/accept", w, "a step that is admissible for the order is carried out")
                    continue
                some_ok = True
                if len(se) != 1:
                    if len(se) > 1:
                        R.bad("C06/space", w, "the graph is advanced more than once")
                    elif compare_half(o, inplace, s1, sp, S0):
                        R.bad("C06/space", w, "the order is advanced without the graph")
                    else:
                        raise Undecided("the graph is not advanced by a focus operation")
                    continue
                g = se[0]
                if len(g.pre) < 2:
                    raise Undecided("operation on the graph")
                R.check(compare(o.facts, g.pre[1], want, al), "C06/same-step", w, "both halves are advanced by the same step")
                gi = "inplace" in g.name.split("::")[-1]
                ti = meth == "focus_inplace"
                ts = after_of(o, t) if ti else fld(t.ret, "Ok.0") if inplace is not None else fld(fld(t.ret, "Some.0"), "0")
                checked = "unchecked" not in g.name
                gs = None
                if gi:
                    gs = after_of(o, g)
                elif checked:
                    gs = fld(g.ret, "Ok.0")
                else:
                    gs = g.ret
                if inplace is True:
                    r1 = s1
                elif inplace is False:
                    r1 = fld(o.ret, "Ok.0")
                else:
                    r1 = fld(fld(o.ret, "Some.0"), "0")
                    R.check(compare(o.facts, fld(fld(o.ret, "Some.0"), "1"), want, al), "C06/item", w, "the step of the order is reported")
                R.check(compare(o.facts, getp(r1, tp), ts, al), "C06/time", w, "the new scheduler has the advanced order")
                R.check(compare(o.facts, getp(r1, sp), gs, al), "C06/space", w, "the new scheduler has the advanced graph")
                if inplace is not True:
                    g1 = getp(s1, sp)
                    R.check(True if g1 is S0 or (is_after(g1, g) and pure_op(g)) else (False if not foreign(g1, al) else None), "C06/parent", w, "the old scheduler keeps its graph")
    if not some_ok:
        R.und("C06/step", w, "no successful path")


def derives(v, base, evs):
    """v is base, a copy of it, or base after earlier calls"""
    if v is base:
        return True
    if v.op == "after":
        for e in evs:
            if e.cid == v.a[0] and e.pre and len(e.pre) > v.a[1]:
                return derives(e.pre[v.a[1]], base, evs)
    return False


def is_after(v, e):
    return v.op == "after" and v.a[0] == e.cid


def pure_op(e):
    """focus (unlike focus_inplace) leaves the graph as it was (C01, C20)"""
    return "inplace" not in e.name.split("::")[-1]


def compare_half(o, inplace, s1, sp, S0):
    if inplace is True:
        r = s1
    elif inplace is False:
        r = fld(o.ret, "Ok.0")
    else:
        r = fld(fld(o.ret, "Some.0"), "0")
    return getp(r, sp) is S0


STATEFUL = ("Scheduler", "PathGenerator", "Graph")
FOCUS_OPS = re.compile(r"\bFocus(Iterator)?(<.*>)?>?::\w+$|::focus_(inplace_)?unchecked$")


def c06_api(R, ctx, cfg, rel):
    """no way around the focus operations"""
    P = ctx.prog(cfg)
    n = 0
    for name in STATEFUL + ("Sweep",):
        a = find_adt(ctx, name, cfg)
        for v in a["v"]:
            for f in v["f"]:
                n += 1
                # a public field that can be reached from outside
                R.check(not f["pub"] or not a["epub"], "C06/api", name + rel, "field %s of %s cannot be written from outside" % (f["n"], name), a["span"])
    # public functions that hand out mutable references
    fmut = re.compile(r"&('[_\w]+ )?mut [^,]*\b(%s|State)\b" % "|".join(STATEFUL))
    for i in P.items:
        if i["k"] != "fn" or not i["epub"] or not i["p"].startswith("mbqc_scheduling"):
            continue
        n += 1
        if fmut.search(i["out"]):
            R.bad("C06/api", i["p"] + rel, "mutable access to one half of a scheduler is handed out", i["span"])
    # public methods that change a half
    for k, b in P.bodies.items():
        if b["krate"] != "mbqc_scheduling" or not b.get('epub') or "{closure" in k or b.get("derived") or "@" in k:
            continue
        ins = [b["locals"][j + 1]["ty"] for j in range(b["argc"])]
        recv = [j for j, t in enumerate(ins) if re.match(r"&('[_\w]+ )?mut [\w:]*\b(%s)\b" % "|".join(STATEFUL), t)]
        if not recv or FOCUS_OPS.search(k):
            continue
        n += 1
        with guard(R, "C06/api", k + rel):
            I, outs = summarise(R, ctx, b, cfg, names=["a%d" % j for j in range(b["argc"])])
            for o in outs:
                for j in recv:
                    v = o.state.store.get(("P", "a%d" % j))
                    R.check(v is mk("sym", "a%d" % j) or (None if v is None or foreign(v) else False), "C06/api", k + rel, "only the focus operations change a half of a scheduler", b["span"])
    R.notes.append("C06/api%s: %d fields and public functions" % (rel, n))


# ------------------------------------------------------------------ C21
def c21(R, ctx):
    for cfg, rel in CFGS:
        w = "run without search" + rel
        with guard(R, "C21/run", w):
            tp, sp = accessor(ctx, "Scheduler", "time", cfg), accessor(ctx, "Scheduler", "space", cfg)
            mp = pg_fields(ctx, cfg)["meas"]
            mx = accessor(ctx, "Graph", "max_memory", cfg)
            b = ctx.find(r"\binterface::run$", cfg)
            names = ["graph", "order", "do_search", "timeout", "nthreads", "task_bound", "prob"]
            I = ctx.interp(cfg, opaque=[r"from_dependency_graph$", r"Graph::<.*>::new$", r"Scheduler<.*> as .*Focus<", r"search::search$"])
            outs = I.run_fn(b, names=names)
            usage(R, I, outs)
            nret = 0
            for o in outs:
                if not feasible(o.facts) or o.facts.decide(mk("sym", "do_search")) is not False:
                    continue
                with guard(R, "C21/run", w):
                    c21_out(R, w, o, tp, sp, mp, mx)
                    nret += o.kind == "ret"
            if not nret:
                R.und("C21/run", w, "no result")


def c21_out(R, w, o, tp, sp, mp, mx):
    evs = [e for e in o.events if isinstance(e, Ev)]
    fd = [e for e in evs if e.name.endswith("from_dependency_graph")]
    gn = [e for e in evs if re.search(r"Graph::<.*>::new$", e.name)]
    loops = [e for e in o.events if isinstance(e, LoopEv)]
    if o.kind == "panic":
        # only if a step that consists of measurable nodes were rejected, which C02/C03 rule out
        foc = [e for e in evs + [x for l in loops for x in l.exit.events if isinstance(x, Ev)] if e.name.endswith("::focus_inplace") or e.name.endswith("::focus")]
        if not any(mentions_ev(c, foc) for c in o.lits):
            with R.under(o.lits):
                R.bad("C21/panic", w, "the trivial schedule does not panic")
        return
    if len(fd) != 1 or len(gn) != 1:
        raise Undecided("construction of the scheduler")
    R.check(fd[0].pre[0] is mk("sym", "order"), "C21/build", w, "the order is built from the given ordering")
    R.check(compare(o.facts, fd[0].pre[2], NONE), "C21/build", w, "no mapping is applied")
    R.check(gn[0].pre[0] is mk("sym", "graph"), "C21/build", w, "the graph is built from the given adjacency")
    ln = length(o.ret)
    R.check(compare(o.facts, ln, num(1)), "C21/one", w, "exactly one schedule is returned")
    p = sel(o.ret, num(0))
    time_, space_, steps = fld(p, "time"), fld(p, "space"), fld(p, "steps")
    if steps.op == "reversed" and steps.a[0].op == "phi":
        R.bad("C21/steps", w, "the steps are in the order in which they are carried out")
        return
    if steps.op != "phi":
        if steps is VEC0:
            R.bad("C21/steps", w, "the steps are lost")
            return
        raise Undecided("steps %s" % short(steps))
    le_ = find_loop(o.events, steps.a[0])
    if le_ is None:
        raise Undecided("no loop for the steps")
    L, span = le_.loop, le_.loop.span
    R.check(compare(o.facts, L.entry[steps], VEC0), "C21/steps", w, "the schedule starts without steps", span)
    # the scheduler that is carried along
    ph = [v for v, i in L.entry.items() if getp(i, tp) is fd[0].ret and getp(i, sp) is gn[0].ret]
    if len(ph) != 1:
        raise Undecided("scheduler in the loop")
    S = ph[0]
    meas = getp(getp(S, tp), mp)
    allfoc = []
    for q in L.paths:
        allfoc += [e for e in q.events if isinstance(e, Ev) and re.search(r"focus", e.name)]
    al = loose(*allfoc)
    for q in L.paths:
        if not feasible(q.facts):
            continue
        with guard(R, "C21/loop", w), R.under(q.lits, al):
            if q.kind == "exit":
                if q is not le_.exit:
                    continue
                d = decide(q.facts, eq(length(meas), num(0)))
                if d is not True:
                    d = strict(q.facts, q.lits, eq(length(meas), num(0)), own=[x for x in subterms(meas)])
                R.check(d, "C21/until-done", w, "steps follow until nothing is measurable", span)
                continue
            if q.kind != "back":
                continue
            d = decide(q.facts, eq(length(meas), num(0)))
            R.check({True: False, False: True, None: None}[d], "C21/nonempty", w, "no step is empty", span)
            foc = [e for e in q.events if isinstance(e, Ev) and re.search(r"::focus(_inplace)?$", e.name)]
            if len(foc) != 1:
                if len(foc) > 1 or q.upd[S] is S:
                    R.bad("C21/carry", w, "every step is carried out exactly once", span)
                    continue
                raise Undecided("carrying out a step")
            e = foc[0]
            R.check(e.pre[0] is S, "C21/carry", w, "a step is carried out on the scheduler", span)
            R.check(compare(q.facts, e.pre[1], meas), "C21/greedy", w, "every step is the complete measurable set", span)
            new = after_of(q, e) if e.name.endswith("inplace") else fld(e.ret, "Ok.0")
            R.check(compare(q.facts, q.upd[S], new, al), "C21/carry", w, "the scheduler is advanced", span)
            R.check(compare(q.facts, q.upd[steps], vpush(steps, meas), al), "C21/steps", w, "every step that is carried out is reported, in order", span)
            peak = getp(getp(new, sp), mx)
            if space_ in L.entry:
                for nme, f in refine(q.facts, {"higher": lt(peak, space_), "not": neg(lt(peak, space_))}):
                    v = q.upd[space_]
                    R.check(True if f.eqv(v, peak) or nme == "higher" and v is space_ else (None if foreign(v, al) else False), "C21/space", w, "space is the peak memory of carrying out the schedule", span)
            if time_ in L.entry:
                R.check(compare(q.facts, q.upd[time_], add(time_, num(1))), "C21/time", w, "time is the number of steps", span)
    f = o.facts
    if space_ in L.entry:
        R.check(compare(f, L.entry[space_], num(0)), "C21/space", w, "peak starts at zero", span)
    else:
        R.check(compare(f, space_, getp(getp(S, sp), mx)), "C21/space", w, "space is the peak memory of carrying out the schedule", span)
    if time_ in L.entry:
        R.check(compare(f, L.entry[time_], num(0)), "C21/time", w, "time is the number of steps", span)
    elif time_.op == "k":
        R.check(time_ is K(L), "C21/time", w, "time is the number of steps", span)
    else:
        R.check(compare(f, time_, length(steps)), "C21/time", w, "time is the number of steps", span)


RULES = {"C05": c05, "C06": c06, "C21": c21}

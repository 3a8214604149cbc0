"""The search loops: C07 (recorded patterns), C08 (pruning), C09 (front), C10 (threads), C11 (timeout), C14 (reproducibility), C15 (accept)."""
from rulelib import *
from rules_space import find_loop
from rules_time import pg_fields
from rules_build import span_of

CFGS = (("on", ""), ("off", " (release)"))
MAX = num(2 ** 64 - 1)
VEC0 = mk("vec0")
OPQ = [r"Sweep<.*Iterator>::next$", r"Sweep::<.*>::skip_current$", r"timer::Timer::(new|start|finished)$", r"FocusIterator>::next_and_focus$",
       r"from_dependency_graph$", r"Graph::<.*>::new$", r"DependencyBuffer::new$", r"Scheduler<.*> as .*Focus<"]
NEXT, SKIP = re.compile(r"Sweep<.*Iterator>::next$"), re.compile(r"Sweep::<.*>::skip_current$")
FIN, TSTART, TNEW = re.compile(r"Timer::finished$"), re.compile(r"Timer::start$"), re.compile(r"Timer::new$")
NAF = re.compile(r"next_and_focus$")


def is_(e, pat):
    return isinstance(e, Ev) and e.raw is not None and pat.search(e.raw) is not None


class TPath:
    """one path of a task (or of the whole function in the single-threaded case)"""

    def __init__(self, kind, lits, events, facts, state, ret=None):
        self.kind, self.lits, self.events, self.facts, self.state, self.ret = kind, lits, events, facts, state, ret


class Task:
    def __init__(self, spawn, parent, paths, outs):
        self.spawn, self.parent, self.paths, self.outs = spawn, parent, paths, outs


class SL:
    """a search loop"""

    def __init__(self, S, L, task, ev):
        self.S, self.L, self.task = S, L, task
        self.where = L.fn.split("mbqc_scheduling::")[-1] + S.rel
        self.its = None
        self.H = self.P = self.B = self.Sw = None


class It:
    """one path through an iteration"""


class Scen:
    def __init__(self, R, ctx, cfg, rel, timeout, prob):
        self.cfg, self.rel, self.timeout, self.prob = cfg, rel, timeout, prob
        self.cur = accessor(ctx, "Sweep", "current", cfg)
        self.stk = accessor(ctx, "Sweep", "stack", cfg)
        self.tp = accessor(ctx, "Scheduler", "time", cfg)
        self.sp = accessor(ctx, "Scheduler", "space", cfg)
        self.mx = accessor(ctx, "Graph", "max_memory", cfg)
        self.cm = accessor(ctx, "Graph", "current_memory", cfg)
        self.nodes = accessor(ctx, "Graph", "nodes", cfg)
        pf = pg_fields(ctx, cfg)
        self.setp = pf["meas"] + ("set",)
        self.cnt = pf["cnt"]
        b = ctx.find(r"\bsearch::search$", cfg)
        names = [None] * b["argc"]
        for i in range(b["argc"]):
            ty = b["locals"][i + 1]["ty"]
            for n, pat in (("order", r"Vec<\(usize"), ("prob", r"dyn .*Fn"), ("graph", r"^&?\[?.*Vec<usize>"), ("timeout", r"Duration"), ("nthreads", r"^u16$|NonZero|^usize$"), ("bound", r"^[iu](32|64)$|^isize$|Option<u32>")):
                if n not in names and re.search(pat, ty):
                    names[i] = n
                    break
        if None in names or len(set(names)) != len(names):
            raise Undecided("parameters of search::search")
        I = self.I = ctx.interp(cfg, opaque=OPQ, max_states=3000000)
        st = I.state()
        args = I.sym_args(st, b, names)
        self.dur, self.f, self.seed = mk("sym", "duration"), mk("sym", "accept"), mk("sym", "seed")
        val = {"timeout": some(self.dur) if timeout else NONE,
               "prob": {"det": NONE, "prob": some(tup(self.f, NONE)), "seed": some(tup(self.f, some(self.seed)))}[prob]}
        args = [val.get(n, a) for n, a in zip(names, args)]
        self.graph, self.order, self.nthreads, self.bound = (args[names.index(n)] for n in ("graph", "order", "nthreads", "bound"))
        self.outs = I.run_fn(b, args=args, st=st)
        usage(R, I, self.outs)
        if I.unknown:
            R.notes.append("calls without summary: %s" % ", ".join(sorted(I.unknown)))
        self.outs = [o for o in self.outs if o.kind == "ret" and feasible(o.facts)]
        if not self.outs:
            raise Undecided("search::search does not return")
        self.find()

    # ------------------------------------------------ structure
    def find(self):
        self.sls, self.splits, self.tasks = [], [], []
        self.single_outs, self.multi_outs = [], []
        seen = {}
        for o in self.outs:
            sp = list(self.spawns(o.events, None))
            if not sp:
                self.single_outs.append(o)
                continue
            self.multi_outs.append(o)
            for e, parent in sp:
                if id(e) not in seen:
                    ps = []
                    for k, s, _ in e.paths:
                        if k == "ret" and feasible(s.facts):
                            ps.append(TPath(k, unlist(s.lits, e.lits0), unlist(s.trace, e.mark), s.facts, s))
                    seen[id(e)] = Task(e, parent, ps, [])
                    self.tasks.append(seen[id(e)])
                seen[id(e)].outs.append(o)
        if self.single_outs:
            self.main = Task(None, None, [TPath("ret", o.lits, o.events, o.facts, o.state, o.ret) for o in self.single_outs], self.single_outs)
        else:
            self.main = None
        loops = {}
        for t in ([self.main] if self.main else []) + self.tasks:
            t.sls = []
            for p in t.paths:
                for e in self.search_loops(p.events):
                    k = self.sig(e.loop, t)
                    sl = loops.get(k)
                    if sl is None:
                        sl = loops[k] = SL(self, e.loop, t, e)
                        self.sls.append(sl)
                    p.sl, p.slev = sl, e
                    if sl not in t.sls:
                        t.sls.append(sl)

    def sig(self, L, t):
        return (id(t) if t.spawn else 0, L.lid, tuple(L.entry.items()), tuple((p.kind, tuple(p.lits)) for p in L.paths))

    def spawns(self, evs, parent):
        for e in evs:
            if isinstance(e, SpawnEv):
                yield e, parent
            elif isinstance(e, LoopEv):
                for q in e.loop.paths:
                    if q.kind == "back":
                        for x in self.spawns(q.events, (e.loop, q)):
                            yield x

    def search_loops(self, evs):
        for e in evs:
            if isinstance(e, LoopEv):
                if any(is_(x, NEXT) for q in e.loop.paths for x in q.events):
                    yield e
                else:
                    for q in e.loop.paths:
                        for x in self.search_loops(q.events):
                            yield x

    # ------------------------------------------------ quantities
    def state(self, sweep):
        return getp(sweep, self.cur)

    def mem(self, sc):
        return getp(getp(sc, self.sp), self.mx)

    def curmem(self, sc):
        return getp(getp(sc, self.sp), self.cm)

    def sets(self, sc):
        t = getp(sc, self.tp)
        return length(getp(t, self.setp)), hlen(getp(t, self.cnt))

    def cases(self, sc, base):
        """{case: (condition, smallest length of a pattern that goes through this state)}"""
        n, c = self.sets(sc)
        leaf, free = eq(n, num(0)), eq(c, num(0))
        return {"complete": (leaf, add(base, num(1))),
                "one step left": (conj(neg(leaf), free), add(base, num(2))),
                "more left": (conj(neg(leaf), neg(free)), add(base, num(3)))}


def iterations(sl):
    """classified paths of the loop body; paths that C05 excludes are dropped"""
    if sl.its is not None:
        return sl.its
    r = []
    sw = None
    for q in sl.L.paths:
        if q.kind not in ("back", "exit") or not feasible(q.facts):
            continue
        it = It()
        it.q, it.f, it.lits, it.ev = q, q.facts, q.lits, q.events
        nx = [e for e in q.events if is_(e, NEXT)]
        it.skips = [e for e in q.events if is_(e, SKIP)]
        it.calls = [e for e in q.events if isinstance(e, Ev) and e.name == "call_fn"]
        it.fins = [e for e in q.events if is_(e, FIN)]
        it.draws = [e for e in q.events if isinstance(e, Ev) and e.name == "draw"]
        it.nx = nx
        it.kind = None
        if len(nx) == 1:
            e = it.e = nx[0]
            it.S1 = mk("after", e.cid, 0)
            if sw is None:
                sw = e.pre[0]
            elif sw is not e.pre[0]:
                raise Undecided("the sweep of the loop")
            d = q.facts.decide(isv(e.ret, "Some"))
            if d is False:
                it.kind = "none"
            elif d is True:
                it.step = fld(e.ret, "Some.0")
                fw = q.facts.decide(isv(it.step, "Forward"))
                if fw is None and q.facts.decide(isv(it.step, "Backward")) is not None:
                    fw = not q.facts.decide(isv(it.step, "Backward"))
                if fw is True:
                    it.kind = "fwd"
                    it.item = fld(it.step, "Forward.0")
                    # C05: the state that was left is on the stack
                    if it.skips and it.skips[0].pre[0] is it.S1 and \
                            (q.facts.decide(isv(it.skips[0].ret, "Ok")) is False or q.facts.decide(isv(it.skips[0].ret, "Err")) is True):
                        continue
                elif fw is False:
                    it.kind = "back"
                    it.leaf = fld(it.step, "Backward.0")
                    it.mem = fld(it.leaf, "Some.0")
                    it.at_leaf = q.facts.decide(isv(it.leaf, "Some"))
                    if it.at_leaf is None and q.facts.decide(isv(it.leaf, "None")) is not None:
                        it.at_leaf = not q.facts.decide(isv(it.leaf, "None"))
        it.own = {e.cid for e in it.skips + it.calls + it.fins + it.draws + nx}
        r.append(it)
    if sw is None:
        raise Undecided("no sweep")
    sl.Sw = sw
    sl.its = r
    roles(sl)
    return r


def roles(sl):
    L = sl.L
    ps, hs = [], []
    for it in sl.its:
        for v, x in it.q.upd.items():
            if it.kind == "fwd" and x.op == "push" and x.a[0] is v and v not in ps:
                ps.append(v)
            if x.op == "hput" and v not in hs:
                y = x
                while y.op == "hput":
                    y = y.a[0]
                if y is v:
                    hs.append(v)
    for it in sl.its:
        for v, x in it.q.upd.items():
            if not ps and it.kind == "back" and x.op == "slice" and x.a[0] is v:
                ps.append(v)
    sl.P = ps[0] if len(ps) == 1 else None
    hs = [h for h in hs if L.where[h][0][0] != "M"]
    sl.H = hs[0] if len(hs) == 1 else None
    # the table of known memory: compared with the peak memory
    bs = []
    for it in sl.its:
        if it.kind != "fwd":
            continue
        m = sl.S.mem(sl.S.state(it.S1))
        for c in it.lits:
            ss = set(subterms(c))
            if m in ss:
                for x in ss:
                    if x.op == "sel" and x.a[0] in L.entry and x.a[0] not in bs:
                        bs.append(x.a[0])
    sl.B = bs[0] if len(bs) == 1 else None


def allow(it):
    return lambda x: x.op in ("ret", "after") and x.a[0] in it.own


def driver(rule, fn, probs=("det", "prob", "seed")):
    def run(R, ctx):
        jobs = []
        for cfg, rel in CFGS:
            for t in (False, True):
                for p in probs:
                    w = "%s search%s%s" % ({"det": "deterministic", "prob": "probabilistic", "seed": "seeded"}[p], " with timeout" if t else "", rel)
                    jobs.append((w, lambda R, cfg=cfg, rel=rel, t=t, p=p, w=w: fn(R, Scen(R, ctx, cfg, rel, t, p), w)))
        parallel(R, jobs, rule)
    return run


# ------------------------------------------------------------------ C07
def c07(R, S, w):
    if not S.sls:
        raise Undecided("no search loop")
    for sl in S.sls:
        with guard(R, "C07/loop", sl.where):
            c07_loop(R, S, sl)
        with guard(R, "C07/start", sl.where):
            c07_start(R, S, sl)
    for t in ([S.main] if S.main else []) + S.tasks:
        for p in t.paths:
            if hasattr(p, "sl"):
                with guard(R, "C07/after", p.sl.where):
                    c07_after(R, S, t, p)


def c07_loop(R, S, sl):
    w, sp = sl.where, sl.L.span
    its = iterations(sl)
    if sl.P is None:
        down = [it for it in its if it.kind == "fwd" and it.q.kind == "back" and not it.skips and feasible(it.f)]
        if down and not any(contains(x, it.item) for it in down for x in list(it.q.upd.values()) + [y for e in it.q.events if isinstance(e, Ev) for y in e.args]):
            with R.under(down[0].lits, allow(down[0])):
                R.bad("C07/descend", w, "a step that is taken is put at the end of the route", sp)
                return
        raise Undecided("route")
    P, H = sl.P, sl.H
    rec = False
    for it in its:
        with guard(R, "C07/step", w):
            al = allow(it)
            with R.under(it.lits, al):
                if it.kind is None:
                    raise Undecided("step of the sweep")
                P1 = it.q.upd[P]
                H1 = it.q.upd[H] if H is not None else None
                if it.q.kind == "back":
                    s1 = it.q.upd.get(sl.Sw)
                    want = mk("after", it.skips[-1].cid, 0) if it.skips else it.S1
                    if s1 is None:
                        raise Undecided("sweep")
                    R.check(True if s1 is want else (None if foreign(s1, al) else False), "C07/sweep", w, "the search goes on where the sweep is", sp)
                if it.kind == "none":
                    R.check(compare(it.f, P1, P, al), "C07/route", w, "the route stays at the end of the sweep", sp)
                    if H is not None:
                        R.check(compare(it.f, H1, H, al), "C07/record", w, "nothing is recorded at the end of the sweep", sp)
                    continue
                if it.kind == "fwd":
                    if len(it.skips) > 1 or it.skips and it.skips[0].pre[0] is not it.S1:
                        R.bad("C07/skip", w, "at most the state that was just entered is skipped", sp)
                        continue
                    if it.skips:
                        R.check(compare(it.f, P1, P, al), "C07/skip", w, "a skipped step is not on the route", sp)
                    else:
                        R.check(compare(it.f, P1, vpush(P, it.item), al), "C07/descend", w, "a step that is taken is put at the end of the route", sp)
                    if H is not None:
                        R.check(compare(it.f, H1, H, al), "C07/record", w, "nothing is recorded on the way down", sp)
                    continue
                # back
                if it.skips:
                    R.bad("C07/leave", w, "going back goes back one step", sp)
                    continue
                for nme, f in refine(it.f, {"root": eq(length(P), num(0)), "below": lt(num(0), length(P))}):
                    want = VEC0 if nme == "root" else slice_(P, num(0), sub(length(P), num(1)))
                    if nme == "root":
                        R.check(True if compare(f, P1, P, al) or compare(f, length(P1), num(0), al) else compare(f, P1, P, al), "C07/leave", w, "leaving a state removes its step from the route", sp)
                    else:
                        R.check(compare(f, P1, want, al), "C07/leave", w, "leaving a state removes its step from the route", sp)
                if H is None:
                    continue
                if it.at_leaf is None:
                    R.check(True if H1 is H else None, "C07/record", w, "patterns are recorded at leaves", sp)
                    continue
                if not it.at_leaf:
                    R.check(compare(it.f, H1, H, al), "C07/record", w, "patterns are recorded at leaves only", sp)
                    continue
                if H1 is H:
                    continue    # C08 decides whether a pattern may be dropped
                if H1.op != "hput" or H1.a[0] is not H:
                    R.check(None if foreign(H1, al) or H1.op != "hput" else False, "C07/record", w, "exactly one pattern is recorded at a leaf", sp)
                    continue
                rec = True
                check_pattern(R, "C07/record", w, it.f, H1.a[1], H1.a[2], P, it.mem, al, sp)
    if H is None:
        if all(it.kind is not None for it in its) and not any(foreign(c, allow(it)) for it in its for c in it.lits):
            R.bad("C07/record", w, "complete patterns are recorded", sp)
        else:
            R.und("C07/record", w, "no recorded patterns")
    elif not rec:
        R.und("C07/record", w, "no recorded patterns")


def pattern_parts(val):
    """(space, steps, other fields) of a recorded pattern"""
    if val.op != "agg":
        raise Undecided("form of a recorded pattern")
    return dict(zip(val.a[2], val.a[3]))


def check_pattern(R, rule, w, f, key, val, P, mem, al, sp):
    R.check(compare(f, key, length(P), al), rule, w, "the time of a pattern is the number of its steps", sp)
    d = pattern_parts(val)
    st = [n for n, x in d.items() if compare(f, x, P, al) is True]
    ms = [n for n, x in d.items() if compare(f, x, mem, al) is True]
    fo = [n for n, x in d.items() if foreign(x, al)]
    R.check(True if len(st) == 1 else (None if fo else False), rule, w, "the steps of a pattern are the route to the leaf", sp)
    R.check(True if ms else (None if fo else False), rule, w, "the space of a pattern is the peak memory at the leaf", sp)
    for n, x in d.items():
        if n not in st and n not in ms:
            R.check(compare(f, x, length(P), al), rule, w, "the time of a pattern is the number of its steps", sp)


def child_of(S, sc):
    """the next_and_focus event whose child the state is: cid or None"""
    if sc.op == "fld" and sc.a[1] == "0":
        y = sc.a[0]
        if y.op == "fld" and y.a[1] == "Some.0" and y.a[0].op == "ret":
            return y.a[0]
    return None


def c07_start(R, S, sl):
    """the route at the start of the loop"""
    iterations(sl)
    L, w, sp = sl.L, sl.where, sl.L.span
    if sl.P is None:
        raise Undecided("route")
    e = L.entry.get(sl.Sw)
    if e is None:
        raise Undecided("sweep at the start")
    stack = getp(e, S.stk)
    R.check(compare(mkfacts(), length(stack), num(0)), "C07/start", w, "the sweep starts without parent states", sp)
    ret = child_of(S, S.state(e))
    p0 = L.entry[sl.P]
    if ret is not None:
        item = fld(fld(ret, "Some.0"), "1")
        R.check(compare(mkfacts(), length(p0), num(1)), "C07/start", w, "a task starts with its first step on the route", sp)
        R.check(compare(mkfacts(), sel(p0, num(0)), item), "C07/start", w, "a task starts with its first step on the route", sp)
    else:
        R.check(compare(mkfacts(), length(p0), num(0)), "C07/start", w, "the route is empty at the root", sp)
    if sl.H is not None:
        R.check(compare(mkfacts(), L.entry[sl.H], mk("hnew")), "C07/start", w, "nothing is recorded at the start", sp)


def mkfacts():
    return Facts()


def first_iteration(sl, f):
    """may the loop have been left, with facts f, in its first iteration / in a later one? (True / False / None each)"""
    L = sl.L
    first, later = None, None
    for v, init in L.entry.items():
        if init.op == "bool":
            d = f.decide(v)
            if d is not None and d is not (init is TRUE):
                first = False
            if d is not None and all(it.f.decide(it.q.upd[v]) is (not d) for it in sl.its if it.q.kind == "back"):
                later = False
            continue
        if not isint(init):
            continue
        if v in subs_of(f):
            d = f.decide(eq(v, init))
            if d is False:
                first = False
            bs = [it for it in sl.its if it.q.kind == "back"]
            # v after a back edge never equals what f requires
            if bs and all(back_excludes(it, v, f) for it in bs):
                later = False
    return first, later


def isint(t):
    return t.op in ("num", "aff") or intval(t) is not None


def subs_of(f):
    r = set()
    for x in list(f.iv) + list(f.ne):
        if hasattr(x, "op"):
            r.update(subterms(x))
    return r


def back_excludes(it, v, f):
    """the value of v after this iteration contradicts f"""
    x = it.q.upd[v]
    lo, hi = f.interval(v)
    g = it.f
    if lo is not None:
        if g.decide(lt(x, num(lo))) is True:
            return True
    if hi is not None:
        if g.decide(lt(num(hi), x)) is True:
            return True
    for b in f.ne.get(v, ()) if hasattr(f.ne, "get") else ():
        pass
    return False


def final_results(sl, p):
    iterations(sl)
    """results of a task path after its search loop, relative to the loop: (value at exit, puts after the loop)"""
    it = [i for i in sl.its if i.q is p.slev.exit]
    return it[0] if it else None


def c07_after(R, S, t, p):
    """patterns that are recorded after the loop"""
    sl = p.sl
    its = iterations(sl)
    w, sp = sl.where, sl.L.span
    if sl.P is None or sl.H is None:
        raise Undecided("route or results")
    it = final_results(sl, p)
    if it is None:
        return        # excluded by C05
    extra, base = handed_in(S, sl, p, it)
    if extra is None:
        raise Undecided("results after the loop")
    al = allow(it)
    if not extra:
        return
    P1 = it.q.upd[sl.P]
    with R.under(p.lits, al):
        for key, val in extra:
            f = p.facts
            check_pattern(R, "C07/root", w, f, key, val, P1, S.mem(S.state(it.q.upd.get(sl.Sw, it.S1))), al, sp)
            # the state has to be a leaf
            n, c = S.sets(S.state(it.q.upd.get(sl.Sw, it.S1)))
            leaf = f.decide(eq(n, num(0)))
            if leaf is True:
                R.ok("C07/root", w, "only a complete pattern is recorded after the loop", sp)
                continue
            first, later = first_iteration(sl, f)
            # the sweep was over right away: no child, so the root is a leaf; its step is on the route
            child = child_of(S, S.state(sl.L.entry[sl.Sw]))
            good = it.kind == "none" and later is False and child is not None
            R.check(True if good else (False if not foreign_path(p, al) else None), "C07/root", w, "only a complete pattern is recorded after the loop", sp)


def foreign_path(p, al):
    return any(foreign(c, al) for c in p.lits)


def handed_in(S, sl, p, it):
    """[(key, value)] recorded between the loop and the merge, and the value at the exit of the loop"""
    H1 = it.q.upd[sl.H]
    fin = results_after(S, sl, p, H1)
    if fin is None:
        return None, H1
    r = []
    while fin is not H1 and fin.op == "hput":
        r.append((fin.a[1], fin.a[2]))
        fin = fin.a[0]
    if fin is not H1:
        return None, H1
    r.reverse()
    return r, H1


def results_after(S, sl, p, H1):
    """the results of the loop as they are used afterwards"""
    ml = merge_loop(S, sl, p)
    if ml is not None:
        L, ph = ml
        return L.entry[ph]
    # other uses: emptiness test, final filter
    cand = set()
    k = p.events.index(p.slev)
    for c in p.lits:
        for x in subterms(c):
            if x.op == "hlen" and derives_h(x.a[0], H1):
                cand.add(x.a[0])
    for e in p.events[k + 1:]:
        if isinstance(e, LoopEv):
            for q in e.loop.paths:
                for c in q.lits:
                    for x in subterms(c):
                        if x.op in ("has", "hget") and derives_h(x.a[0], H1):
                            cand.add(x.a[0])
    if not cand:
        return H1
    best = max(cand, key=depth_h)
    return best


def depth_h(x):
    n = 0
    while x.op == "hput":
        n += 1
        x = x.a[0]
    return n


def derives_h(x, base):
    while x is not base and x.op in ("hput", "hdel"):
        x = x.a[0]
    return x is base


def merge_loop(S, sl, p):
    """the loop that hands the results of a task over: (Loop, phi of the own results)"""
    k = p.events.index(p.slev)
    it = final_results(sl, p)
    if it is None:
        return None
    H1 = it.q.upd[sl.H]
    for e in p.events[k + 1:]:
        if isinstance(e, LoopEv):
            for v, i in e.loop.entry.items():
                if derives_h(i, H1):
                    return e.loop, v
    return None


# ------------------------------------------------------------------ C08
def le(a, b):
    return neg(lt(b, a))


def sure(it, f, c, al, own):
    """is c implied by f?  True / False / None (c talks about quantities the rule does not understand)"""
    c = f.simp(c)
    d = f.decide(c)
    if d is True:
        return True
    if not feasible(f.assume(neg(c))):
        return True
    if foreign(c, al):
        return None
    for x in subterms(c):
        if x.op in ("phi", "k") and x not in own:
            return None
    return False


class Chg:
    """an element of a table is changed from old to new"""

    def __init__(self, f, idx, lo, hi, old, new, lits, L=None, full=False):
        self.f, self.idx, self.lo, self.hi, self.old, self.new, self.lits, self.L, self.full = f, idx, lo, hi, old, new, lits, L, full
        self.olds = {old}


def table_changes(events, f, x, bases, lits=(), depth=0):
    """changes that lead from one of the bases to x, in order, and the base"""
    if depth > 12:
        raise Undecided("table")
    if x in bases or x.op in ("locked", "fill"):
        return [], x
    if x.op == "upd":
        r, b = table_changes(events, f, x.a[0], bases, lits, depth + 1)
        old = sel(x.a[0], x.a[1], f)
        r.append(Chg(f, x.a[1], x.a[1], add(x.a[1], num(1)), old, x.a[2], list(lits)))
        return r, b
    if x.op == "phi":
        e = find_loop(events, x.a[0])
        if e is None:
            raise Undecided("table")
        L = e.loop
        n, comp = space(L)
        r, b = table_changes(events, f, L.entry[x], bases, lits, depth + 1)
        for p in backs(L):
            if not feasible(p.facts):
                continue
            nv = p.upd[x]
            if nv is x:
                continue
            ups = []
            y = nv
            while y is not x and y.op == "upd":
                ups.append(y)
                y = y.a[0]
            if y is not x or n is None:
                raise Undecided("changes of the table")
            for u in reversed(ups):
                sp = span_of(L, n, u.a[1])
                if sp is None:
                    raise Undecided("changes of the table")
                old = sel(L.entry[x], u.a[1], p.facts) if u.a[0] is x else sel(u.a[0], u.a[1], p.facts)
                r.append(Chg(p.facts, u.a[1], sp[0], sp[1], old, u.a[2], list(lits) + list(p.lits), L, e.exit in comp))
                if u.a[0] is x:
                    r[-1].olds.add(sel(L.entry[x], u.a[1]))
        return r, b
    if x.op == "concat":
        # a tail that is overwritten
        raise Undecided("form of the table")
    raise Undecided("form of the table")


def shared_phi(S, sl):
    return [v for v in sl.L.entry if sl.L.where[v][0][0] == "M"]


def c08(R, S, w):
    if not S.sls:
        raise Undecided("no search loop")
    for sl in S.sls:
        with guard(R, "C08/loop", sl.where):
            iterations(sl)
            if S.prob == "det":
                c08_prune(R, S, sl)
            c08_table(R, S, sl)


def prunable(S, sl, it, f, E, al):
    """does the state that was entered need at least as much memory as known for E steps?"""
    m = S.mem(S.state(it.S1))
    own = set(sl.L.entry)
    c = le(sel(sl.B, E), m)
    if f.decide(c) is True or not feasible(f.assume(neg(c))):
        return True
    for l in it.lits:
        for x in subterms(l):
            if x.op == "sel" and x.a[0] is sl.B and f.decide(le(x.a[1], E)) is True and f.decide(le(x, m)) is True:
                return True      # the table does not increase with the length
    return sure(it, f, c, al, own)


def c08_prune(R, S, sl):
    w, sp = sl.where, sl.L.span
    for it in sl.its:
        al = allow(it)
        with R.under(it.lits, al):
            if it.q.kind == "exit" and it.kind is not None:
                fin = [it.f.decide(e.ret) for e in it.fins]
                if it.kind == "none" or True in fin:
                    R.ok("C08/exit", w, "the search ends only when the sweep is over or the timer has fired", sp)
                else:
                    R.bad("C08/exit", w, "the search ends only when the sweep is over or the timer has fired", sp)
    if sl.P is None:
        raise Undecided("route")
    for it in sl.its:
        al = allow(it)
        with R.under(it.lits, al):
            if it.kind != "fwd" or not it.skips or it.calls:
                continue
            if sl.B is None:
                raise Undecided("known memory")
            for nme, (c, E) in S.cases(S.state(it.S1), length(sl.P)).items():
                f = it.f.assume(c)
                if not feasible(f):
                    continue
                R.check(prunable(S, sl, it, f, E, al), "C08/prune", w, "a branch (%s) is skipped only if it already needs the memory known for the smallest number of steps it could finish with" % nme, sp)


def infinity(S, x):
    return x is MAX or Facts().decide(le(add(length(S.graph), num(1)), x)) is True


def c08_table(R, S, sl):
    w, sp = sl.where, sl.L.span
    B, P, H = sl.B, sl.P, sl.H
    if B is None or P is None:
        if any(it.kind == "fwd" and it.skips and not it.calls for it in sl.its):
            raise Undecided("known memory")
        return
    # at the start
    t0 = sl.L.entry[B]
    if t0.op == "locked":
        t0 = S.I.mutexes.get(t0.a[0])
        if t0 is None:
            raise Undecided("shared known memory")
    if t0.op != "fill":
        R.und("C08/infinity", w, "form of the table")
    else:
        R.check(True if infinity(S, t0.a[0]) else (None if foreign(t0.a[0]) else False), "C08/infinity", w, "unknown lengths have infinite known memory", sp)
        n = t0.a[1]
        R.check(True if Facts().decide(le(add(length(S.graph), num(1)), n)) is True else (None if foreign(n) else False), "C08/size", w, "the table has an entry for every possible number of steps", sp)
    own = set(sl.L.entry)
    for it in sl.its:
        if it.kind is None or beyond(it, B, P):
            continue
        al = allow(it)
        for T in [B] + shared_phi(S, sl):
            with guard(R, "C08/table", w), R.under(it.lits, al):
                leaf = it.kind == "back" and it.at_leaf
                ch, base = table_changes(it.ev, it.f, it.q.upd[T], {T})
                if T is B and base is not B:
                    raise Undecided("known memory")
                covered = False
                for c in ch:
                    with R.under(c.lits, al):
                        covered |= c08_change(R, S, sl, it, c, leaf, al, own, w, sp) is True
                if T is B and leaf and H is not None and it.q.upd[H] is not H:
                    known = covered or it.f.decide(le(sel(B, length(P)), it.mem)) is True
                    guarded = any(x.op in ("hget", "has") and x.a[0] is H for c in it.lits for x in subterms(c))
                    R.check(True if known else (None if guarded else False), "C08/known", w, "the space of a recorded pattern becomes the known memory of its length", sp)
                if T is B and leaf and H is not None and it.q.upd[H] is H:
                    d = it.f.decide(le(sel(B, length(P)), it.mem))
                    if d is not True:
                        hs = [x for c in it.lits for x in subterms(c) if x.op == "hget" and x.a[0] is H and x.a[1] is length(P)]
                        d = True if any(it.f.decide(le(y, it.mem)) for x in hs for y in [x] + [fld(x, n) for n in ("0", "1")]) else sure(it, it.f, le(sel(B, length(P)), it.mem), al, own)
                    R.check(d, "C08/lost", w, "a complete pattern is dropped only if at most its space is known for its time", sp)


def beyond(it, B, P):
    """a route that is longer than the table: does not exist (C08/size, every step measures something)"""
    return it.f.decide(lt(length(P), length(B))) is False


def lowered(it, c, al, own):
    for o in c.olds:
        if c.f.decide(le(c.new, o)) is True:
            return True
    o = {x for x in subterms(c.new) if x.op == "phi"} | {x for x in subterms(c.old) if x.op == "phi"}
    return sure(it, c.f, le(c.new, c.old), al, own | o)


def c08_change(R, S, sl, it, c, leaf, al, own, w, sp):
    """one change of the table; True if the entry of the route's own length becomes the leaf's memory"""
    P = sl.P
    ks = {x for x in subterms(c.idx) if x.op == "k"}
    ok_ = own | ks
    if c.new is c.old:
        return None
    if leaf and compare(c.f, c.new, it.mem, al) is True:
        R.check(sure(it, c.f, le(length(P), c.idx), al, ok_), "C08/table", w, "the known memory is lowered only for the length of a pattern and larger ones", sp)
        same = c.f.decide(eq(c.idx, length(P)))
        if same is not True or shared_phi(S, sl):
            # what other tasks have published since the descent may be lower than the pattern
            R.check(lowered(it, c, al, ok_), "C08/table", w, "known memory is only lowered", sp)
        return same is True or (c.lo is not None and c.f.decide(le(c.lo, length(P))) is True)
    if c.new.op == "sel" and c.new.a[1] is c.idx and (c.new.a[0].op in ("locked", "phi")):
        R.check(lowered(it, c, al, ok_), "C08/sync", w, "the known memory of another task is taken over only if it is lower", sp)
        return None
    bad = foreign(c.new, al) or any(x.op in ("phi", "k") and x not in ok_ for x in subterms(c.new))
    R.check(None if bad else False, "C08/table", w, "the known memory is set only to the space of a found pattern", sp)
    return None


# ------------------------------------------------------------------ C09
def stored_fields(S):
    """names of the fields of a stored pattern: (space, steps)"""
    for sl in S.sls:
        for it in iterations(sl):
            if sl.H is None or sl.P is None or it.kind != "back" or not it.at_leaf:
                continue
            x = it.q.upd[sl.H]
            if x.op == "hput" and x.a[2].op == "agg":
                d = dict(zip(x.a[2].a[2], x.a[2].a[3]))
                ms = [n for n, y in d.items() if compare(it.f, y, it.mem, allow(it)) is True]
                st = [n for n, y in d.items() if compare(it.f, y, sl.P, allow(it)) is True]
                if len(ms) == 1 and len(st) == 1:
                    return ms[0], st[0]
    raise Undecided("form of a stored pattern")


def c09(R, S, w):
    fs, ft = stored_fields(S)
    if S.main:
        for p in S.main.paths:
            if not hasattr(p, "sl"):
                continue
            it = final_results(p.sl, p)
            if it is None or p.sl.H is None:
                if it is not None:
                    R.und("C09/filter", w, "results of the search")
                continue
            with guard(R, "C09/filter", w), R.under(p.lits, allow(it)):
                k = p.events.index(p.slev)
                c09_out(R, S, p.facts, p.events[k + 1:], p.ret, it.q.upd[p.sl.H], fs, ft, w, allow(it), p.lits)
    for o in S.multi_outs:
        with guard(R, "C09/filter", w + " (threads)"), R.under(o.lits):
            ms = [m for m, x in S.I.mutexes.items() if x.op == "hnew"]
            if len(ms) != 1:
                raise Undecided("shared results")
            c09_out(R, S, o.facts, o.events, o.ret, mk("mfinal", ms[0]), fs, ft, w + " (threads)", lambda x: False, o.lits)


def order_ok(ret):
    """is the result sorted by increasing time?  (True / False / None, the sorted value)"""
    if ret.op == "reversed":
        d, v = order_ok(ret.a[0])
        return (False if d else None), v
    if ret.op != "sorted":
        return None, ret
    v, mode, key = ret.a[0], ret.a[1].a[0], ret.a[2]
    e, e1 = mk("elem", 0), mk("elem", 1)
    if mode == "key":
        if key.op == "agg" and key.a[0] == "()" and key.a[3]:
            key = key.a[3][0]
        if key is fld(e, "time"):
            return True, v
        if key.op == "agg" and key.a[0].endswith("Reverse") and key.a[3][0] is fld(e, "space"):
            return True, v
        return (None if foreign(key) else False), v
    if mode == "cmp":
        good = True
        for lits, res in key:
            f = Facts()
            for c in lits:
                f = f.assume(c) if f is not None else None
            if not feasible(f):
                continue
            for nme, g in refine(f, {"Less": lt(fld(e, "time"), fld(e1, "time")), "Greater": lt(fld(e1, "time"), fld(e, "time"))}):
                d = g.decide(isv(res, nme))
                if d is not True:
                    return (None if d is None or foreign(res) else False), v
        return good, v
    return None, v


def only_size(c, T):
    """does the condition look at nothing but the number of patterns?"""
    c = c.a[0] if c.op == "not" else c
    return c.op in ("lt0", "eq0") and all(y is hlen(T) or not contains(y, T) for y in aff(c.a[0])[1])


def c09_out(R, S, f, events, ret, T, fs, ft, w, al, lits):
    sp = None
    srt, v = order_ok(ret)
    v0, unsorted_map = v, False
    if v.op == "gen":
        n, x = v.a
        if x.op != "agg" or not set(x.a[2]) >= {"time", "space", "steps"}:
            raise Undecided("form of the result")
        d = dict(zip(x.a[2], x.a[3]))
        if n.op == "hlen":
            O = n.a[0]
            unsorted_map = True
            kv = [y for y in subterms(x) if y.op in ("hkeyat", "hvalat")]
            if any(y.a[0] is not O or y.a[1] is not BV for y in kv):
                raise Undecided("form of the result")
            if kv and all("sorted" in y.a[2].a[0] for y in kv):
                unsorted_map = False
            key, val = [y for y in kv if y.op == "hkeyat"], [y for y in kv if y.op == "hvalat"]
            kk = key[0] if key else None
            vv = val[0] if val else None
            R.check(True if kk is not None and d["time"] is kk else (None if foreign(d["time"]) else False), "C09/fields", w, "the time of a returned pattern is its own time", sp)
            R.check(True if vv is not None and d["space"] is fld(vv, fs) else (None if foreign(d["space"]) else False), "C09/fields", w, "the space of a returned pattern is its own space", sp)
            R.check(True if vv is not None and d["steps"] is fld(vv, ft) else (None if foreign(d["steps"]) else False), "C09/fields", w, "the steps of a returned pattern are its own steps", sp)
            kind = "map"
        else:
            raise Undecided("form of the result")
    elif v.op == "phi":
        O, kind = v, "vec"
    elif v is VEC0 and f.decide(eq(hlen(T), num(0))) is True:
        return
    elif v is VEC0 and (not any(contains(c, T) for c in lits) or all(not contains(c, T) or only_size(c, T) for c in lits) and feasible(f.assume(lt(num(0), hlen(T))))):
        R.bad("C09/kept", w, "the patterns that were found are returned", sp)
        return
    else:
        raise Undecided("form of the result %s" % short(v))
    if O.op != "phi":
        raise Undecided("form of the result")
    le_ = find_loop(events, O.a[0])
    if le_ is None:
        raise Undecided("no filter")
    L = le_.loop
    sp = L.span
    e0 = L.entry[O]
    if e0.op not in ("hnew", "vec0"):
        raise Undecided("result at the start of the filter")
    n, comp = space(L)
    if n is None:
        raise Undecided("filter loop is not counted")
    if le_.exit not in comp:
        R.bad("C09/all", w, "everything that was found is considered", sp)
        return
    k = K(L)
    if kind == "vec" and c09_entries(R, S, f, L, O, T, n, fs, ft, w, al, sp):
        R.check(True if srt is not False else False, "C09/sorted", w, "the result is sorted by increasing time", sp)
        return
    idx = {x.a[1] for p in L.paths for t in list(p.lits) + list(p.upd.values()) for x in subterms(t) if x.op in ("has", "hget") and mentions(x.a[1], L)}
    if len(idx) != 1:
        raise Undecided("time that is considered")
    i = idx.pop()
    c, d = aff(i)
    if d.get(k) not in (1, -1):
        raise Undecided("time that is considered")
    up = d[k] == 1
    used = {x.a[0] for p in L.paths for t in p.lits for x in subterms(t) if x.op in ("has", "hget")}
    if T not in used:
        # the table of results is consumed on the way: only times that were considered before are gone
        vs = [v for v in L.entry if v in used and L.entry[v] is T]
        if len(vs) != 1:
            if not used or any(mentions(x, L) or foreign(x) or x.op == "phi" for x in used):
                raise Undecided("results that are considered")
        else:
            for p in backs(L):
                y = p.upd[vs[0]]
                while y.op in ("hdel", "hput") and y.a[1] is i:
                    y = y.a[0]
                if y is not vs[0]:
                    raise Undecided("results that are considered")
            T = vs[0]
    lo, hi = span_of(L, n, i)
    R.check(True if lo is num(0) or lo is num(1) else (None if foreign(lo) else False), "C09/all", w, "every time is considered", sp)
    R.check(True if f.decide(le(add(length(S.graph), num(1)), hi)) is True else (None if foreign(hi) else False), "C09/all", w, "every possible time is considered", sp)
    own = set(L.entry) | {k} | {x for x in subterms(T) if x.op == "phi"} | {x for x in subterms(T) if x.op == "k"}
    cur, M = None, None
    for c in L.entry:
        if c is O:
            continue
        e = L.entry[c]
        t = sel(c, i) if e.op == "fill" else c if infinity(S, e) else None
        if t is None:
            continue
        if e.op == "fill" and not infinity(S, e.a[0]):
            R.check(None if foreign(e.a[0]) else False, "C09/start", w, "nothing is known to be better before the first pattern", sp)
            continue
        if any(t in set(subterms(l)) for p in L.paths for l in p.lits):
            cur, M = t, c
    last = None
    if cur is None and kind == "vec":
        last = fld(sel(O, sub(length(O), num(1))), "space")
        if not any(last in set(subterms(l)) for p in L.paths for l in p.lits):
            last = None
    for p in backs(L):
        if not feasible(p.facts):
            continue
        with R.under(p.lits, al):
            for nme, g in refine(p.facts, {"found": has(T, i, p.facts), "none": neg(has(T, i, p.facts))}):
                O1 = p.upd[O]
                if nme == "none":
                    R.check(compare(g, O1, O, al), "C09/only", w, "only found patterns are returned", sp)
                    if M is not None:
                        R.check(compare(g, p.upd[M], M, al), "C09/known", w, "nothing changes for a time without pattern", sp)
                    continue
                val = hget(T, i, g)
                v = fld(val, fs)
                kept = O1 is not O
                if kept:
                    c09_kept(R, S, g, O, O1, i, val, fs, ft, kind, w, al, sp)
                if cur is not None:
                    cond = lt(v, cur) if kept else le(cur, v)
                    R.check(sure(None, g, cond, al, own), "C09/filter", w, "a pattern is returned if and only if it needs less space than all returned patterns with smaller time", sp)
                    c09_known(R, p, g, M, cur, i, v, kept, L, w, al, sp)
                elif last is not None:
                    for nm2, h in refine(g, {"first": eq(length(O), num(0)), "later": lt(num(0), length(O))}):
                        if nm2 == "first":
                            R.check(kept, "C09/filter", w, "the pattern with the smallest time is returned", sp)
                        else:
                            R.check(sure(None, h, lt(v, last) if kept else le(last, v), al, own), "C09/filter", w, "a pattern is returned if and only if it needs less space than all returned patterns with smaller time", sp)
                elif kept and (not any(v in set(subterms(c)) for c in p.lits) or alone(L, p, T)):
                    R.bad("C09/filter", w, "a pattern is returned only if it needs less space than all returned patterns with smaller time", sp)
                elif not kept and alone(L, p, T):
                    pass
                else:
                    raise Undecided("filter")
    R.check(True if up else (False if cur is not None or last is not None else None), "C09/order", w, "times are considered in increasing order", sp)
    if srt is None and not unsorted_map and up and (ret is v0 or ret.op == "gen"):
        srt = True
    if srt is None and unsorted_map and ret is v0:
        srt = True if f.decide(le(v0.a[0], num(1))) is True else False
    R.check(srt, "C09/sorted", w, "the result is sorted by increasing time", sp)


def c09_entries(R, S, f, L, O, T, n, fs, ft, w, al, sp):
    """the filter as one pass over the sorted entries of the table; False when it has another form"""
    k = K(L)
    if any(x.op in ("has", "hget") and mentions(x.a[1], L) for p in L.paths for t in list(p.lits) + list(p.upd.values()) for x in subterms(t)):
        return False
    src = {(x.a[0], x.a[1]) for p in L.paths for t in list(p.lits) + list(p.upd.values()) for x in subterms(t) if x.op == "sel" and contains(x.a[1], lambda y: y is k) and x.a[0].op == "sorted"}
    if len(src) != 1:
        return False
    st, at = list(src)[0]
    ent, mode, key = st.a[0], st.a[1].a[0], st.a[2]
    if ent.op != "gen" or ent.a[0] is not hlen(T) or mode not in ("key", "self"):
        return False
    x = ent.a[1]
    kx, vx = fld(x, "0"), fld(x, "1")
    if kx.op != "hkeyat" or vx.op != "hvalat" or kx.a[0] is not T or vx.a[0] is not T or kx.a[1] is not BV or vx.a[1] is not BV:
        return False
    if mode == "key":
        if key.op == "agg" and key.a[0] == "()" and key.a[3]:
            key = key.a[3][0]
        k0 = mk("elem", 0)
        R.check(True if key is fld(k0, "0") else None if foreign(key) else False, "C09/order", w, "times are considered in increasing order", sp)
        if key is not fld(k0, "0"):
            return True
    off = intval(sub(at, k))
    if off is None:
        return False
    good = off == 0 and n is hlen(T)
    R.check(True if good else None if foreign(n) else False if off > 0 or f.decide(lt(n, hlen(T))) is True else None, "C09/all", w, "everything that was found is considered", sp)
    if not good:
        return True
    e = sel(st, k)
    i, val = fld(e, "0"), fld(e, "1")
    v = fld(val, fs)
    own = set(L.entry) | {k} | {y for y in subterms(T) if y.op in ("phi", "k")}
    cs = [c for c in L.entry if c is not O and infinity(S, L.entry[c]) and any(c in set(subterms(l)) for p in L.paths for l in p.lits)]
    if len(cs) > 1:
        return False
    last = fld(sel(O, sub(length(O), num(1))), "space")
    for p in backs(L):
        if not feasible(p.facts):
            continue
        with R.under(p.lits, al):
            O1, g = p.upd[O], p.facts
            kept = O1 is not O
            if kept:
                c09_kept(R, S, g, O, O1, i, val, fs, ft, "vec", w, al, sp)
            if cs:
                cond = lt(v, cs[0]) if kept else le(cs[0], v)
                R.check(sure(None, g, cond, al, own), "C09/filter", w, "a pattern is returned if and only if it needs less space than all returned patterns with smaller time", sp)
                c09_known(R, p, g, cs[0], cs[0], i, v, kept, L, w, al, sp)
            elif any(last in set(subterms(l)) for q in L.paths for l in q.lits):
                for nm2, h in refine(g, {"first": eq(length(O), num(0)), "later": lt(num(0), length(O))}):
                    if nm2 == "first":
                        R.check(kept, "C09/filter", w, "the pattern with the smallest time is returned", sp)
                    else:
                        R.check(sure(None, h, lt(v, last) if kept else le(last, v), al, own), "C09/filter", w, "a pattern is returned if and only if it needs less space than all returned patterns with smaller time", sp)
            elif kept and alone(L, p, T):
                R.bad("C09/filter", w, "a pattern is returned only if it needs less space than all returned patterns with smaller time", sp)
            else:
                raise Undecided("filter")
    return True


def alone(L, p, T):
    """whether a pattern is returned does not depend on anything the loop did before"""
    for e in p.events:
        if isinstance(e, LoopEv):
            n, comp = space(e.loop)
            if n is None or set(comp) != {q for q in e.loop.paths if q.kind == "exit"} or any(x.op == "phi" and x in e.loop.entry for c in p.lits for x in subterms(c)):
                return False
    return not any(x.op == "phi" and x in L.entry and x is not T for c in p.lits for x in subterms(c))


def c09_kept(R, S, g, O, O1, i, val, fs, ft, kind, w, al, sp):
    if kind == "map":
        if O1.op != "hput" or O1.a[0] is not O:
            raise Undecided("returned pattern")
        R.check(compare(g, O1.a[1], i, al), "C09/same", w, "a returned pattern keeps its time", sp)
        x = O1.a[2]
        for n in (fs, ft):
            R.check(compare(g, fld(x, n), fld(val, n), al), "C09/same", w, "a returned pattern keeps its space and its steps", sp)
        return
    if O1.op != "push" or O1.a[0] is not O:
        raise Undecided("returned pattern")
    x = O1.a[1]
    for n, want in (("time", i), ("space", fld(val, fs)), ("steps", fld(val, ft))):
        R.check(compare(g, fld(x, n), want, al), "C09/same", w, "a returned pattern keeps its time, space and steps", sp)


def c09_known(R, p, g, M, cur, i, v, kept, L, w, al, sp):
    m1 = p.upd[M]
    if not kept:
        if m1 is M:
            return
        R.check(compare(g, m1, M, al), "C09/known", w, "a pattern that is left out does not lower the known space", sp)
        return
    if cur is M:
        R.check(compare(g, m1, v, al), "C09/known", w, "the known space is lowered to the space of a returned pattern", sp)
        return
    ch, base = table_changes(p.events, g, m1, {M})
    reach = False
    for c in ch:
        same = compare(c.f, c.new, v, al)
        R.check(same, "C09/known", w, "the known space is lowered to the space of a returned pattern", sp)
        if c.L is not None and same is True:
            for q in backs(c.L):
                nv = [q.upd[x] for x in q.upd if x in c.L.entry and c.L.where.get(x) == L.where.get(M)]
                if nv and nv[0].op == "phi" and feasible(q.facts) and q.facts.decide(le(c.old, v)) is not True:
                    raise Undecided("changes of the known space")
            if c.full and g.decide(le(c.lo, add(i, num(1)))) is True and g.decide(eq(c.hi, length(M))) is True:
                reach = True
    R.check(True if reach else (None if any(foreign(c.lo, al) or foreign(c.hi, al) for c in ch) else False), "C09/known", w, "a returned pattern lowers the known space of all larger times", sp)


# ------------------------------------------------------------------ C10
def c10(R, S, w):
    if not S.tasks:
        if S.outs and not any(foreign(c) for o in S.outs for c in o.lits):
            raise Undecided("no threads")
        raise Undecided("no threads")
    with guard(R, "C10/split", w):
        c10_split(R, S, w)
    seen = set()
    for t in S.tasks:
        for p in t.paths:
            sp = p.sl.L.span if hasattr(p, "sl") else t.spawn.span
            with guard(R, "C10/task", w):
                c10_task(R, S, t, p, w, sp, seen)


def c10_split(R, S, w):
    pls = {}
    for t in S.tasks:
        if t.parent is not None:
            pls.setdefault(t.parent[0].lid, []).append(t.parent[0])
    if len(pls) != 1:
        raise Undecided("loop that hands out tasks")
    done = set()
    for o in S.multi_outs:
        top = [e for e in o.events if isinstance(e, LoopEv) and e.loop.lid in pls]
        if len(top) != 1:
            raise Undecided("loop that hands out tasks")
        ev = top[0]
        L = ev.loop
        sp = L.span
        phis = {e.pre[0] for q in L.paths for e in q.events if is_(e, NAF)}
        if len(phis) != 1 or list(phis)[0] not in L.entry:
            raise Undecided("scheduler of the first layer")
        phi = phis.pop()
        nafs = [e for e in o.events if is_(e, NAF)]
        if nafs:
            raise Undecided("first steps outside of the loop")
        if id(L) not in done:
            done.add(id(L))
            with guard(R, "C10/split", w):
                c10_handout(R, S, w, L, phi)
        # the remaining first steps
        q = ev.exit
        own = {e.cid for e in q.events if is_(e, NAF)}
        al = lambda x: x.op in ("ret", "after") and x.a[0] in own
        with R.under(o.lits, al):
            ns = [e for e in q.events if is_(e, NAF)]
            lost = [e for e in ns if q.facts.decide(isv(e.ret, "None")) is not True]
            if q.kind != "exit":
                raise Undecided("end of the loop that hands out tasks")
            if any(isinstance(e, SpawnEv) for e in q.events):
                raise Undecided("task at the end of the loop")
            R.check(not lost, "C10/gap", w, "no first step is taken from the scheduler without starting a task for it", sp)
            k = o.events.index(ev)
            fin = [e for e in o.events if isinstance(e, SpawnEv)]
            if any(o.events.index(e) < k for e in fin):
                raise Undecided("task before the loop")
            if not fin:
                none = any(q.facts.decide(isv(e.ret, "None")) is True for e in ns)
                R.check(True if none else False, "C10/rest", w, "the first steps that were not handed out are explored by a final task", sp)
                continue
            R.check(len(fin) == 1, "C10/rest", w, "the first steps that were not handed out are explored by one final task", sp)
            want = q.upd.get(phi, phi)
            for t in S.tasks:
                if t.spawn is not fin[0]:
                    continue
                for sl in t.sls:
                    iterations(sl)
                    got = S.state(sl.L.entry[sl.Sw])
                    ok = got is want or o.facts.eqv(got, want)
                    R.check(True if ok else (None if foreign(got, al) else False), "C10/rest", w, "the final task starts with the scheduler that has the remaining first steps", sp)
            j = o.events.index(fin[0])
            if not any(isinstance(e, Ev) and e.name == "scope.join" for e in o.events[j:]) and fin[0].how != "thread":
                R.und("C10/join", w, "end of the scope")


def c10_handout(R, S, w, L, phi):
    sp = L.span
    k = K(L)
    for q in L.paths:
        if not feasible(q.facts) or q.kind != "back":
            continue
        ns = [e for e in q.events if is_(e, NAF)]
        own = {e.cid for e in ns}
        al = lambda x: x.op in ("ret", "after") and x.a[0] in own
        with R.under(q.lits, al):
            ss = [e for e in q.events if isinstance(e, SpawnEv)]
            if len(ns) != 1:
                raise Undecided("first steps of one iteration")
            e = ns[0]
            d = q.facts.decide(isv(e.ret, "Some"))
            if d is None:
                raise Undecided("first step")
            if d is True:
                R.check(len(ss) == 1, "C10/once", w, "every first step that is taken from the scheduler gets exactly one task", sp)
            if not ss:
                continue
            R.check(sure(None, q.facts, lt(k, S.bound), al, set(L.entry) | {k}), "C10/bound", w, "not more tasks than the task bound are handed out", sp)
            x = q.upd.get(phi)
            R.check(True if x is mk("after", e.cid, 0) else (None if x is None or foreign(x, al) else False), "C10/gap", w, "the remaining first steps stay in the scheduler", sp)
            for t in S.tasks:
                if t.spawn not in ss:
                    continue
                if not t.sls:
                    raise Undecided("task without search")
                for sl in t.sls:
                    iterations(sl)
                    got = S.state(sl.L.entry[sl.Sw])
                    ok = child_of(S, got) is e.ret
                    R.check(True if ok else (None if foreign(got, al) else False), "C10/own", w, "a task explores the state behind its first step", sp)


def c10_task(R, S, t, p, w, sp, seen):
    fins = [e for e in p.events if is_(e, FIN)]
    fown = {e.cid for e in fins}
    if not hasattr(p, "sl"):
        al = lambda x: x.op in ("ret", "after") and x.a[0] in fown
        with R.under(p.lits, al):
            d = any(p.facts.decide(e.ret) is True for e in fins)
            if not d and (any(isinstance(e, LoopEv) or is_(e, NEXT) for e in p.events) or
                          any(isinstance(e, LockEv) and e.val is not None and any(x.op in ("hput", "upd") for x in subterms(e.val)) for e in p.events)):
                raise Undecided("task without search loop")
            R.check(d, "C10/explores", w, "a task explores its part of the tree unless the timer has fired", sp)
        return
    sl = p.sl
    it = final_results(sl, p)
    if it is None:
        return
    if sl.H is None or sl.P is None:
        raise Undecided("results of a task")
    al0 = allow(it)
    al = lambda x: al0(x) or x.op in ("ret", "after") and x.a[0] in fown
    extra, H1 = handed_in(S, sl, p, it)
    if extra is None:
        raise Undecided("results after the loop")
    with R.under(p.lits, al):
        child = child_of(S, S.state(sl.L.entry[sl.Sw]))
        if child is not None and it.kind == "none" and not extra:
            first, later = first_iteration(sl, p.facts)
            n, c = S.sets(S.state(it.q.upd.get(sl.Sw, it.S1)))
            good = first is False or p.facts.decide(eq(n, num(0))) is False or p.facts.decide(eq(hlen(sl.H), num(0))) is False
            R.check(True if good else False, "C10/leaf", w, "a task whose first step completes the measurement reports that pattern", sp)
        ml = merge_loop(S, sl, p)
        R0 = results_after(S, sl, p, H1)
        if ml is None:
            d = p.facts.decide(eq(hlen(R0), num(0)))
            if d is not True:
                k = p.events.index(p.slev)
                after = p.events[k + 1:]
                if writes_results(S):
                    if any(isinstance(e, LoopEv) for e in after):
                        raise Undecided("form of the merge")
                elif any(isinstance(e, Ev) and e.cid in UNKNOWN_CIDS for e in after):
                    raise Undecided("unknown call")
                else:
                    R.bad("C10/handed-in", w, "a task hands in its results unless it has none", sp)
                    return
                # without a loop nothing is handed in, and no loop can have found out that nothing is better
                lks = {e.mid: e.val for e in after if isinstance(e, LockEv) and e.kind == "lock"}
                if any(isinstance(e, LockEv) and e.kind != "lock" and e.val is not None and e.val != lks.get(e.mid) for e in after):
                    raise Undecided("form of the merge")
            R.check(True if d else False, "C10/handed-in", w, "a task hands in its results unless it has none", sp)
            return
        L, ph = ml
        key = (id(L), ph, it.q.upd.get(sl.B))
        own = own_tables(sl, it, p, L)
        if extra and sl.B is not None:
            c10_extra(R, S, sl, it, p, L, own, extra, al, w, sp)
        key = (L.lid, tuple(L.entry.items()), tuple(own))
        if key in seen:
            return
        seen.add(key)
        c10_merge(R, S, sl, p, L, ph, own, al, w, L.span)


def flat(evs):
    for e in evs:
        yield e
        if isinstance(e, LoopEv):
            for q in e.loop.paths:
                yield from flat(q.events)


def writes_results(S):
    """is there a path of a task that changes what is behind the lock of the shared results?"""
    ms = {m for m, x in S.I.mutexes.items() if x.op == "hnew"}
    if not ms:
        return True

    def go(evs, top):
        held = {}
        for e in evs:
            if isinstance(e, LockEv) and e.mid in ms:
                if not top:
                    return True
                if e.kind == "lock":
                    held[e.mid] = e.val
                elif e.val is not None and e.val is not held.get(e.mid):
                    return True
            elif isinstance(e, LoopEv) and any(go(q.events, False) for q in e.loop.paths):
                return True
        return False
    return any(go(p.events, True) for t in S.tasks for p in t.paths)


def own_tables(sl, it, p, L):
    """values of the own table of known memory after the loop"""
    if sl.B is None:
        return []
    r = [it.q.upd[sl.B]]
    k = p.events.index(p.slev)
    for e in p.events[k + 1:]:
        if isinstance(e, LoopEv):
            if e.loop is L:
                break
            for v, x in e.loop.entry.items():
                y = x
                while y.op == "upd":
                    y = y.a[0]
                if y in r:
                    r += [x, v, e.exit.upd.get(v, v)]
    for c in [c for q in L.paths for c in q.lits] + list(p.lits):
        for x in subterms(c):
            if x.op == "upd" and x not in r:
                y = x
                while y.op == "upd":
                    y = y.a[0]
                if y in r:
                    r.append(x)
    return r


def c10_extra(R, S, sl, it, p, L, own, extra, al, w, sp):
    """a pattern that is recorded after the loop is known for its length"""
    used = {x.a[0] for q in L.paths for c in q.lits for x in subterms(c) if x.op == "sel" and x.a[0] in own}
    used |= {x for x in L.entry.values() if x in own} & set(own)
    if not used:
        return
    for T in used:
        ch, base = table_changes(p.events, p.facts, T, {it.q.upd[sl.B]})
        for key, val in extra:
            v = S.mem(S.state(it.q.upd.get(sl.Sw, it.S1)))
            old = it.q.upd.get(sl.B, sl.B)
            if p.facts.decide(lt(key, length(old))) is False:
                continue        # beyond the table: does not exist
            good = None if any(foreign(c.new, al) for c in ch) else False
            if p.facts.decide(le(sel(old, key), v)) is True:
                good = True     # nothing to lower
            for c in ch:
                if compare(c.f, c.new, v, al) is True and (c.f.decide(eq(c.idx, key)) is True or (c.lo is not None and c.f.decide(eq(c.lo, key)) is True)):
                    good = True
            R.check(good, "C10/leaf", w, "the space of a pattern that is recorded after the search is known before the merge", sp)


def c10_merge(R, S, sl, p, L, ph, own, al, w, sp):
    fs, ft = stored_fields(S)
    SR = [v for v, x in L.entry.items() if x.op == "locked" and S.I.mutexes.get(x.a[0]) is not None and S.I.mutexes[x.a[0]].op == "hnew"]
    SB = [v for v, x in L.entry.items() if x.op == "locked" and S.I.mutexes.get(x.a[0]) is not None and S.I.mutexes[x.a[0]].op == "fill"]
    if not SR and not writes_results(S) and not any(isinstance(e, Ev) and e.cid in UNKNOWN_CIDS for e in flat(p.events)):
        R.bad("C10/handed-in", w, "a task hands in its results unless it has none", sp)
        return
    if len(SR) != 1 or len(SB) > 1:
        raise Undecided("shared data in the merge")
    SR, SB = SR[0], (SB[0] if SB else None)
    k = K(L)
    idxs = {x.a[1] for q in L.paths for c in list(q.lits) + list(q.upd.values()) for x in subterms(c) if x.op in ("has", "hget") and x.a[0] in (ph, SR) and mentions(x.a[1], L)}
    if len(idxs) != 1:
        raise Undecided("length that is merged")
    i = idxs.pop()
    c, d = aff(i)
    if d.get(k) not in (1, -1):
        raise Undecided("length that is merged")
    tabs = set(own) | {v for v, x in L.entry.items() if x in own}
    if d[k] == 1:
        lo = sub(i, k)
        R.check(True if lo in (num(0), num(1)) else (None if foreign(lo) or mentions(lo, L) else False), "C10/all", w, "every length is merged", sp)
        for q in L.paths:
            if q.kind == "exit" and feasible(q.facts):
                ends = [length(x) for x in tabs] + ([length(L.entry[SB]), length(SB)] if SB is not None else []) + [add(length(S.graph), num(1))]
                good = any(q.facts.decide(le(n, i)) is True for n in ends)
                R.check(True if good else (None if any(foreign(c, al) for c in q.lits) or any(x.op in ("phi",) and x not in L.entry and x not in tabs for c in q.lits for x in subterms(c)) else False), "C10/all", w, "every length is merged", sp)
    elif space(L)[0] is None:
        raise Undecided("length that is merged")
    ownq = set(L.entry) | {k} | tabs | {x for v in tabs | set(L.entry.values()) for x in subterms(v) if x.op in ("phi", "k")}
    sb = sel(SB, i) if SB is not None else None
    obs = []
    for q in L.paths:
        for cc in list(q.lits) + [q.upd[v] for v in q.upd if v in (SB, SR)]:
            for x in subterms(cc):
                if x.op == "sel" and x.a[0] in tabs and x.a[1] is i and x not in obs:
                    obs.append(x)
    same = None
    if SB is not None:
        # this element was not touched by earlier iterations
        ups = [x.idx for q in backs(L) if feasible(q.facts) for x in table_changes(q.events, q.facts, q.upd[SB], {SB})[0]]
        if all(x is i for x in ups):
            same = eq(sb, sel(L.entry[SB], i))
    for q in backs(L):
        if not feasible(q.facts):
            continue
        q0 = q.facts.assume(same) if same is not None else q.facts
        with R.under(q.lits, al):
            for nme, g in refine(q0, {"own": has(ph, i, q.facts), "none": neg(has(ph, i, q.facts))}):
                R1 = q.upd[SR]
                B1 = q.upd[SB] if SB is not None else None
                ch = []
                if SB is not None:
                    ch, base = table_changes(q.events, g, B1, {SB})
                    if base is not SB or any(x.L is not None for x in ch):
                        raise Undecided("shared known memory in the merge")
                if nme == "none":
                    R.check(compare(g, R1, SR, al), "C10/only", w, "only patterns of the task are handed in", sp)
                val = hget(ph, i, g)
                v = fld(val, fs)
                for x in ch:
                    src = [o for o in obs if g.eqv(x.new, o)] or (nme == "own" and g.eqv(x.new, v))
                    R.check(True if src else (None if foreign(x.new, al) or any(y.op in ("phi", "k") and y not in ownq for y in subterms(x.new)) else False),
                            "C10/shared", w, "the shared known memory is set only to memory known to the task", sp)
                    R.check(sure(None, g, le(x.new, x.old), al, ownq), "C10/shared", w, "the shared known memory is only lowered", sp)
                    R.check(compare(g, x.idx, i, al), "C10/shared", w, "the shared known memory is lowered for the same length", sp)
                if nme == "none":
                    continue
                inserted = R1 is not SR
                shared = hget(SR, i, g)
                if inserted:
                    if R1.op != "hput" or R1.a[0] is not SR:
                        R.check(None if foreign(R1, al) or R1.op != "hdel" else False, "C10/same", w, "exactly one pattern is handed in for a length", sp)
                        continue
                    R.check(compare(g, R1.a[1], i, al), "C10/same", w, "a pattern is handed in for its own length", sp)
                    for n in (fs, ft):
                        R.check(compare(g, fld(R1.a[2], n), fld(val, n), al), "C10/same", w, "a pattern is handed in as it was found", sp)
                    good = None
                    conds = []
                    if sb is not None:
                        conds.append(le(v, sb))
                    for nm2, h in refine(g, {"known": has(SR, i, g), "new": neg(has(SR, i, g))}):
                        if nm2 == "new" and h.decide(has(SR, i, g)) is False and sb is None:
                            good = True
                            continue
                        cs = conds + [le(v, fld(hget(SR, i, h), fs))] + [le(v, o) for o in obs if h.decide(le(o, sb)) is True] if sb is not None else conds + [le(v, fld(hget(SR, i, h), fs))]
                        ds = [sure(None, h, x, al, ownq) for x in cs]
                        good = True if True in ds else (None if None in ds else False)
                        if nm2 == "new" and good is not True:
                            good = True if g.decide(has(SR, i, g)) is False else good
                        R.check(good, "C10/better", w, "a result replaces the shared one only if it needs at most the memory known for its length", sp)
                    if sb is not None:
                        now = ch[-1].new if ch else sb
                        low = now is v or now in obs or g.decide(le(now, v)) is True
                        R.check(True if low else (None if foreign(now, al) else False), "C10/known", w, "the memory of a handed in result is known afterwards", sp)
                else:
                    cs = [lt(fld(shared, fs), v), eq(fld(shared, fs), v)]
                    cs = [le(fld(shared, fs), v)] if g.decide(has(SR, i, g)) is True else []
                    if sb is not None:
                        cs.append(lt(sb, v))
                        cs += [lt(sb, o) for o in obs]
                    cs += [lt(o, v) for o in obs]
                    ds = [sure(None, g, x, al, ownq) for x in cs]
                    R.check(True if True in ds else (None if None in ds else False), "C10/lost", w, "a result is dropped only if less memory is known for its length", sp)


# ------------------------------------------------------------------ C11
NMAX = 10000000


def c11(R, S, w):
    if not S.sls:
        raise Undecided("no search loop")
    with guard(R, "C11/start", w):
        c11_start(R, S, w)
    for sl in S.sls:
        with guard(R, "C11/poll", sl.where):
            c11_loop(R, S, sl)
    for t in ([S.main] if S.main else []) + S.tasks:
        for p in t.paths:
            if hasattr(p, "sl") or not feasible(p.facts):
                continue
            nx = [e for e in p.events if is_(e, NEXT)]
            if not nx:
                continue
            # a search that never comes back for a second step
            with guard(R, "C11/only", w):
                if any(isinstance(e, Ev) and e.cid in UNKNOWN_CIDS for e in p.events):
                    raise Undecided("unknown call")
                own = {e.cid for e in p.events if isinstance(e, Ev)}
                with R.under(p.lits, lambda x: x.op in ("ret", "after") and x.a[0] in own):
                    fired = any(p.facts.decide(e.ret) is True for e in p.events if is_(e, FIN))
                    over = p.facts.decide(isv(nx[-1].ret, "Some")) is False
                    R.check(True if fired or over else False, "C11/only", w, "the search ends only when the sweep is over or the timer has fired", nx[-1].span)
    if S.timeout:
        c11_kept(R, S, w)
    for t in S.tasks:
        for p in t.paths:
            if not hasattr(p, "sl"):
                continue
            with guard(R, "C11/queued", w):
                k = p.events.index(p.slev)
                fins = [e for e in p.events[:k] if is_(e, FIN)]
                own = {e.cid for e in fins}
                with R.under(p.lits, lambda x: x.op in ("ret", "after") and x.a[0] in own or allow(iterations(p.sl)[0])(x)):
                    ds = [p.facts.decide(e.ret) for e in fins]
                    early = all(it.fins and it.ev.index(it.fins[0]) < it.ev.index(it.nx[0]) for it in iterations(p.sl) if it.nx)
                    good = True not in ds and (False in ds or early)
                    R.check(good, "C11/queued", w, "a task that starts after the timeout does not search", p.sl.L.span)


def c11_kept(R, S, w):
    """what was recorded is handed in (and returned), however the search ended; the obligations are those of C09 and C10"""
    T = Report(R.prop)
    with guard(T, "C11/kept", w):
        c09(T, S, w)
    for t in S.tasks:
        for p in t.paths:
            sp = p.sl.L.span if hasattr(p, "sl") else t.spawn.span
            with guard(T, "C11/kept", w):
                c10_task(T, S, t, p, w, sp, set())
    for k, rule, where, detail, span in T.ob:
        if rule in ("C09/kept", "C10/handed-in") or rule == "C11/kept":
            R.ob.append((k, "C11/kept", where, detail, span))


def timer_of(S, o):
    st = [e for e in o.events if is_(e, TSTART)]
    nw = [e for e in o.events if is_(e, TNEW)]
    return mk("after", st[-1].cid, 0) if st else (nw[-1].ret if nw else None)


def starts_in(evs):
    for e in evs:
        if is_(e, TSTART):
            yield e
        elif isinstance(e, LoopEv):
            for q in e.loop.paths:
                yield from starts_in(q.events)
        elif isinstance(e, SpawnEv):
            for k, s, _ in e.paths:
                yield from starts_in(unlist(s.trace, e.mark))


def works(e):
    """does this event search?"""
    if isinstance(e, SpawnEv):
        return True
    if isinstance(e, LoopEv):
        return any(is_(x, NEXT) or is_(x, NAF) or works(x) for q in e.loop.paths for x in q.events)
    return False


def c11_start(R, S, w):
    for o in S.outs:
        with R.under(o.lits):
            st = [(i, e) for i, e in enumerate(o.events) if is_(e, TSTART)]
            deep = list(starts_in(o.events))
            if len(deep) != len(st):
                raise Undecided("start of the timer in a loop or task")
            first = min([i for i, e in enumerate(o.events) if works(e)], default=None)
            last = max([i for i, e in enumerate(o.events) if works(e)], default=None)
            if first is None:
                continue
            sp = st[0][1].span if st else None
            if not S.timeout:
                R.check(not st, "C11/start", w, "without timeout the timer is never started", sp)
            else:
                if any(isinstance(e, Ev) and e.cid in UNKNOWN_CIDS for e in o.events):
                    raise Undecided("unknown call")
                R.check(len(st) == 1, "C11/start", w, "with a timeout the timer is started once", sp)
                for i, e in st:
                    R.check(compare(o.facts, e.args[1], S.dur, fns=True), "C11/duration", w, "the timer is started with exactly the given duration", sp)
                    R.check(i < first, "C11/before", w, "the timer is started before the search begins", sp)
            drops = [i for i, e in enumerate(o.events) if isinstance(e, Ev) and e.name.startswith("drop:") and e.name.endswith("Timer") and i < last]
            if S.timeout:
                R.check(not drops, "C11/alive", w, "the timer lives until the search has ended", sp)


def c11_loop(R, S, sl):
    w, sp = sl.where, sl.L.span
    its = iterations(sl)
    timers = {timer_of(S, o) for o in sl.task.outs}
    if len(timers) != 1 or None in timers:
        raise Undecided("timer")
    timer = timers.pop()
    cnts = [v for v in sl.L.entry if any(counts(sl, it, v, allow(it)) for it in its if it.q.kind == "back")]
    for it in its:
        al = allow(it)
        for e in it.fins:
            if e.pre and e.pre[0] is not timer and not foreign(e.pre[0], al):
                R.check(None if any(x.op == "phi" for x in subterms(e.pre[0])) else False, "C11/poll", w, "the search polls the timer that was started", sp)
        if it.kind == "none":
            other = [v for v, x in it.q.upd.items() if x is not v and v is not sl.Sw and v not in cnts]
            with R.under(it.lits, al):
                R.check(True if it.q.kind != "back" else (None if other else False), "C11/exhausted", w, "the search ends when the whole tree has been swept", sp)
        if it.q.kind == "exit" and it.kind is not None:
            with R.under(it.lits, al):
                over = it.kind == "none" or any(it.f.decide(e.ret) is True for e in it.fins)
                R.check(True if over else False, "C11/only", w, "the search ends only when the sweep is over or the timer has fired", sp)
        if it.q.kind != "back":
            continue
        with R.under(it.lits, al):
            ds = [it.f.decide(e.ret) for e in it.fins]
            if True in ds:
                R.bad("C11/stop", w, "the search ends when the timer has fired", sp)
                continue
            if None in ds and False not in ds:
                # polled, but the answer has no influence
                if not any(e.ret in set(subterms(c)) for e in it.fins for c in list(it.lits) + list(it.q.upd.values())):
                    R.bad("C11/stop", w, "the search ends when the timer has fired", sp)
                    continue
                raise Undecided("answer of the timer")
            if False in ds:
                R.ok("C11/poll", w, "the timer is polled once per bounded number of iterations", sp)
                continue
            good = False
            for v in sl.L.entry:
                if counts(sl, it, v, al):
                    good = True
            # another way of bounding the number of iterations?
            if not good and any(isinstance(e, LockEv) is False and isinstance(e, Ev) and e.cid in UNKNOWN_CIDS for e in it.ev):
                raise Undecided("unknown call")
            R.check(good, "C11/poll", w, "the timer is polled once per bounded number of iterations", sp)


def bounds_in(it, v):
    """constants that the path compares v with"""
    r = set()
    for c in it.lits:
        d = c.a[0] if c.op == "not" else c
        if d.op in ("lt0", "eq0"):
            k, m = aff(d.a[0])
            if set(m) == {v} and abs(m[v]) == 1:
                n = -k * m[v]
                r |= {n - 1, n, n + 1}
    return sorted(n for n in r if 0 <= n <= NMAX)


def counts(sl, it, v, al):
    """the iteration is counted by v, which reaches a constant where the timer is polled"""
    x = it.q.upd[v]
    init = sl.L.entry[v]
    if x is add(v, num(1)):
        for n in bounds_in(it, v):
            N = num(n)
            f = it.f.assume(le(v, N))
            # v never passes N and is below it here
            if it.f.assume(le(v, N)) is None or feasible(it.f.assume(eq(v, N))):
                continue
            if Facts().decide(le(init, N)) is not True:
                continue
            if all(keeps(b, v, N, up=True) for b in sl.its if b.q.kind == "back"):
                return True
    if x is sub(v, num(1)):
        for n in bounds_in(it, v):
            N = num(n)
            if feasible(it.f.assume(eq(v, N))):
                continue
            if Facts().decide(le(N, init)) is not True or Facts().decide(le(init, num(NMAX))) is not True:
                continue
            if all(keeps(b, v, N, up=False) for b in sl.its if b.q.kind == "back"):
                return True
    return False


def keeps(b, v, N, up):
    f = b.f.assume(le(v, N) if up else le(N, v))
    if not feasible(f):
        return True
    x = b.q.upd[v]
    if x is v:
        return True
    if up:
        if f.decide(le(x, N)) is True:
            return True
        return x is add(v, num(1)) and not feasible(f.assume(eq(v, N)))
    if f.decide(le(N, x)) is True and f.decide(le(x, num(NMAX))) is True:
        return True
    return x is sub(v, num(1)) and not feasible(f.assume(eq(v, N)))


# ------------------------------------------------------------------ C14
NONDET = re.compile(r"Instant::|SystemTime::|thread::current|ThreadId|process::id|env::|DefaultHasher|RandomState|available_parallelism|hash_one|getrandom|OsRng|strict_provenance|as_ptr$|expose")


def all_events(evs, seen=None):
    seen = set() if seen is None else seen
    for e in evs:
        yield e
        if isinstance(e, LoopEv) and id(e.loop) not in seen:
            seen.add(id(e.loop))
            for q in e.loop.paths:
                if q.kind in ("back", "exit") and feasible(q.facts):
                    yield from all_events(q.events, seen)
        elif isinstance(e, SpawnEv) and id(e) not in seen:
            seen.add(id(e))
            for k, s, _ in e.paths:
                if feasible(s.facts):
                    yield from all_events(unlist(s.trace, e.mark), seen)


def rng_base(t):
    n = 0
    while t.op == "rngnext":
        t = t.a[0]
        n += 1
    return t, n


def c14(R, S, w):
    for o in S.outs:
        evs = list(all_events(o.events))
        multi = o in S.multi_outs
        if S.prob != "prob":
            es = [e for e in evs if isinstance(e, Ev) and e.name == "entropy"]
            with R.under(o.lits):
                R.check(not es, "C14/entropy", w, "operating system entropy is used only by a probabilistic search without seed", es[0].span if es else None)
        if multi:
            continue
        # sources of nondeterminism in what a single-threaded search does
        bad = {e.cid: e for e in evs if isinstance(e, Ev) and e.raw and NONDET.search(e.raw)}
        if bad:
            with R.under(o.lits, lambda x: x.op in ("ret", "after") and x.a[0] in bad):
                ts = [o.ret] + list(o.lits)
                for e in evs:
                    if isinstance(e, LoopEv):
                        ts += list(e.loop.entry.values())
                        for q in e.loop.paths:
                            ts += list(q.lits) + list(q.upd.values())
                hit = [x for t in ts for x in subterms(t) if x.op in ("ret", "after") and x.a[0] in bad]
                e = bad[hit[0].a[0]] if hit else None
                R.check(not hit, "C14/source", w, "nothing but the arguments influences a single-threaded search", e.span if e else None)
        else:
            R.ok("C14/source", w, "nothing but the arguments influences a single-threaded search")
        with guard(R, "C14/order", w), R.under(o.lits):
            srt, v = order_ok(o.ret)
            un = [x for x in subterms(v) if x.op in ("hkeyat", "hvalat") and "sorted" not in str(x.a[2].a[0] if len(x.a) > 2 and hasattr(x.a[2], "a") and x.a[2].a else "")]
            if not un:
                R.ok("C14/order", w, "the result does not depend on the order of a hash map")
            elif srt is True or all(o.facts.decide(le(hlen(x.a[0]), num(1))) is True for x in un):
                R.ok("C14/order", w, "the result does not depend on the order of a hash map")
            elif o.ret is v or o.ret.op == "reversed" and o.ret.a[0] is v:
                R.bad("C14/order", w, "the result does not depend on the order of a hash map")
            else:
                R.und("C14/order", w, "order of the result")
    if S.prob != "seed":
        return
    for sl in S.sls:
        with guard(R, "C14/rng", sl.where):
            c14_rng(R, S, sl)


def c14_rng(R, S, sl):
    w, sp = sl.where, sl.L.span
    its = iterations(sl)
    L = sl.L
    rng = None
    for it in its:
        for e in it.draws:
            b, n = rng_base(e.pre[0])
            if b.op == "ret" and b.a[-1] == "entropy":
                continue
            if b not in L.entry:
                if b.op == "op" and b.a[0] == "rng_seed":
                    R.und("C14/rng", w, "generator that is made in the loop")
                    continue
                if not foreign(b, allow(it)):
                    R.und("C14/rng", w, "generator")
                continue
            if rng is not None and rng is not b:
                raise Undecided("several generators")
            rng = b
    if rng is None:
        if any(it.draws for it in its):
            return
        raise Undecided("no random decision")
    for it in its:
        if it.q.kind != "back":
            continue
        al = allow(it)
        with R.under(it.lits, al):
            b, n = rng_base(it.q.upd[rng])
            if b is not rng:
                R.check(None if foreign(b, al) else False, "C14/rng", w, "every random decision is drawn from the seeded generator", sp)
            else:
                R.check(n >= len(it.draws), "C14/rng", w, "every random decision is drawn from the seeded generator", sp)
    e = L.entry[rng]
    if not (e.op == "op" and e.a[0] == "rng_seed" or e.op == "op" and getattr(e.a[0], "a", [None])[0] == "rng_seed"):
        b, n = rng_base(e)
        R.check(None, "C14/seed", w, "the generator is seeded with the given seed", sp)
        return
    x = e.a[1]
    if sl.task.spawn is None:
        R.check(compare(mkfacts(), x, S.seed, fns=True), "C14/seed", w, "the generator is seeded with the given seed", sp)
        return
    c14_task_seed(R, S, sl, x, w, sp)


def c14_task_seed(R, S, sl, x, w, sp):
    t = sl.task
    evs = t.parent[1].events if t.parent else None
    for o in t.outs:
        src = evs if evs is not None else o.events
        ds = [e for e in src if isinstance(e, Ev) and e.name == "draw" and e.ret is x]
        if len(ds) != 1:
            if not foreign(x, known_fn) and not any(y.op in ("phi", "ret", "after") for y in subterms(x)):
                R.bad("C14/tasks", w, "the seeds of the tasks are drawn from the generator with the given seed", sp)
                continue
            if t.parent is not None and not foreign(x, lambda y: known_fn(y) or y.op == "cast") and not any(y.op in ("ret", "after") for y in subterms(x)):
                # a counter of the loop that creates the tasks
                P = t.parent[0]
                vs = [y for y in subterms(x) if y.op in ("phi", "k")]
                drawn = lambda y: any(z.op == "ret" and any(isinstance(e, Ev) and e.name == "draw" and e.ret is z for e in all_events(o.events))
                                      or z is S.seed or z.op == "op" and z.a[0] == "rng_seed" for z in subterms(y))
                if all(y in P.entry and not drawn(P.entry[y]) and not foreign(P.entry[y]) and isint(P.entry[y]) and
                       all(not drawn(q.upd.get(y, y)) and not foreign(q.upd.get(y, y)) for q in P.paths) for y in vs if y.op == "phi"):
                    R.bad("C14/tasks", w, "the seeds of the tasks are drawn from the generator with the given seed", sp)
                    continue
            raise Undecided("seed of a task")
        d = ds[0]
        b, n = rng_base(d.pre[0])
        if t.parent is not None and b.op == "op" and b.a[0] == "rng_seed":
            R.bad("C14/tasks", w, "the seeds of the tasks are drawn one after the other", sp)
            continue
        pls = [e for e in o.events if isinstance(e, LoopEv) and b in e.loop.entry]
        if t.parent is None and not pls:
            pls = [e for e in o.events if isinstance(e, LoopEv) and b in e.exit.upd.values()]
        if len(pls) != 1:
            raise Undecided("generator of the tasks")
        L = pls[0].loop
        phi = b if b in L.entry else [v for v, y in pls[0].exit.upd.items() if y is b][0]
        ent = L.entry[phi]
        if not (ent.op == "op" and ent.a[0] == "rng_seed"):
            raise Undecided("generator of the tasks")
        R.check(compare(mkfacts(), ent.a[1], S.seed, fns=True), "C14/tasks", w, "the seeds of the tasks are drawn from the generator with the given seed", sp)
        for q in backs(L):
            if not feasible(q.facts):
                continue
            b2, n2 = rng_base(q.upd[phi])
            m = sum(1 for e in q.events if isinstance(e, Ev) and e.name == "draw")
            if b2 is not phi:
                R.check(None if foreign(b2) else False, "C14/tasks", w, "the seeds of the tasks are drawn one after the other", sp)
            else:
                R.check(n2 >= 1 and n2 >= m, "C14/tasks", w, "the seeds of the tasks are drawn one after the other", sp)


# ------------------------------------------------------------------ C15
def c15(R, S, w):
    if not S.sls:
        raise Undecided("no search loop")
    for sl in S.sls:
        with guard(R, "C15/loop", sl.where):
            iterations(sl)
            if sl.P is None:
                raise Undecided("route")
            for it in sl.its:
                with guard(R, "C15/call", sl.where), R.under(it.lits, allow(it)):
                    c15_it(R, S, sl, it)
        if S.prob != "det":
            with guard(R, "C15/table", sl.where):
                c15_table(R, S, sl)


def c15_it(R, S, sl, it):
    w, sp = sl.where, sl.L.span
    al = allow(it)
    if it.kind != "fwd":
        if it.kind is None:
            raise Undecided("step of the sweep")
        R.check(not it.calls, "C15/only", w, "the accept function is called for descents only", sp)
        return
    if len(it.calls) > 1:
        R.bad("C15/once", w, "the accept function is called once per descent", sp)
        return
    if S.prob == "det":
        R.check(not it.calls, "C15/only", w, "a deterministic search calls no accept function", sp)
        return
    if sl.B is None:
        raise Undecided("known memory")
    S1 = S.state(it.S1)
    own = set(sl.L.entry)
    m = S.mem(S1)
    for nme, (c, E) in S.cases(S1, length(sl.P)).items():
        f = it.f.assume(c)
        if not feasible(f):
            continue
        if not it.calls:
            if it.skips:
                R.check(prunable(S, sl, it, f, E, al), "C15/asked", w, "a descent (%s) that is not pruned is decided by the accept function" % nme, sp)
            else:
                R.bad("C15/asked", w, "a descent (%s) that is not pruned is decided by the accept function" % nme, sp)
            continue
        R.check(sure(it, f, lt(m, sel(sl.B, E)), al, own), "C15/pruned", w, "the accept function is not asked about a pruned branch (%s)" % nme, sp)
        c15_args(R, S, sl, it, f, E, al)
    if it.calls:
        c15_accept(R, S, sl, it, al)


def c15_args(R, S, sl, it, f, E, al):
    w, sp = sl.where, sl.L.span
    e = it.calls[0]
    a = list(e.args)
    if len(a) == 8:
        R.check(True if a[0] is S.f or e.args[0] is S.f else None, "C15/function", w, "the given accept function is called", sp)
        a = a[1:]
    if len(a) != 7:
        raise Undecided("arguments of the accept function")
    S0, S1 = S.state(sl.Sw), S.state(it.S1)
    n, c = S.sets(S1)
    nodes = [length(getp(getp(s, S.sp), S.nodes)) for s in (S1, S0)] + [length(S.graph)]
    want = [("the lowest known memory for the minimal completion length", [sel(sl.B, E)]),
            ("the lowest known memory of any pattern", [sel(sl.B, sub(length(sl.B), num(1))), sel(sl.B, length(S.graph))]),
            ("the peak memory before the step", [S.mem(S0)]),
            ("the current memory before the step", [S.curmem(S0)]),
            ("the current memory after the step", [S.curmem(S1)]),
            ("the number of nodes left to measure after the step", [add(n, c)]),
            ("the number of nodes of the graph", nodes)]
    for j, (what, alts) in enumerate(want):
        x = a[j]
        if x.op != "i2f":
            R.check(None if x.op not in ("num", "float") else False, "C15/args", w, "argument %d is %s" % (j + 1, what), sp)
            continue
        x = x.a[0]
        ds = [compare(f, x, y, al) for y in alts]
        d = True if True in ds else (None if None in ds else False)
        if d is False and any(y.op in ("phi", "k") and y not in sl.L.entry for y in subterms(x)):
            d = None
        R.check(d, "C15/args", w, "argument %d is %s" % (j + 1, what), sp)


def unit_draw(e):
    """is the draw uniform over [0, 1)?  True / False / None; "bool" for a decision with a given probability"""
    k = e.args[0].a[0]
    if k == "gen" or k == "random":
        ty = e.args[1].a[0] if e.args[1].op == "str" else ""
        return True if ty.split(",")[-1].strip() == "f64" else None
    d = e.args[2] if len(e.args) > 2 else None
    one, zero = ("1.0", "1"), ("0.0", "0")

    def fl(t):
        return t.a[0] if t.op in ("float", "num") else None
    if k == "sample" and d is not None and d.op == "op":
        lo, hi = d.a[1], d.a[2]
        nm = d.a[0] if isinstance(d.a[0], str) else d.a[0].a[0]
        if fl(lo) is None or fl(hi) is None:
            return None
        good = float(fl(lo)) == 0 and float(fl(hi)) == 1
        return (True if good else False) if nm == "uniform.new" else (None if good else False)
    if k == "gen_range" and d is not None and d.op == "agg" and d.a[0].endswith("Range"):
        lo, hi = d.a[3][0], d.a[3][1]
        if fl(lo) is None or fl(hi) is None:
            return None
        return float(fl(lo)) == 0 and float(fl(hi)) == 1
    if k == "gen_bool":
        return "bool"
    return None


def c15_accept(R, S, sl, it, al):
    w, sp = sl.where, sl.L.span
    A = it.calls[0].ret
    one = mk("float", 1.0)
    ones = {x for c in it.lits for x in subterms(c) if x.op in ("float", "num") and float(x.a[0]) == 1.0} | {one}
    taken = not it.skips
    T = [mk("fle", o, A) for o in ones] + [mk("flt", o, A) for o in ones]
    T += [neg(mk("flt", A, o)) for o in ones] + [neg(mk("fle", A, o)) for o in ones]
    sure1 = any(it.f.decide(c) is True for c in T)
    yes = no = False
    for e in it.draws:
        u = unit_draw(e)
        if u is None:
            raise Undecided("random number")
        if u is False:
            if any(e.ret in set(subterms(c)) for c in it.lits):
                R.bad("C15/uniform", w, "the acceptance is decided with a uniform random number from [0,1)", sp)
                return
            continue
        if u == "bool":
            p = e.args[2]
            if A not in set(subterms(p)):
                raise Undecided("random decision")
            d = it.f.decide(e.ret)
            if p is A or p.op == "fmin":
                yes |= d is True
                no |= d is False
                continue
            raise Undecided("random decision")
        D = e.ret
        if it.f.decide(mk("flt", D, A)) is True or it.f.decide(mk("fle", A, D)) is False:
            yes = True
        if it.f.decide(mk("flt", D, A)) is False or it.f.decide(mk("fle", A, D)) is True:
            no = True
    c15_points(R, it, A, al, w, sp)
    if taken:
        R.check(sure1 or yes, "C15/accept", w, "a step is taken if the value is at least one or exceeds a uniform random number", sp)
        R.check(not (no and not sure1), "C15/accept", w, "a step is taken if the value is at least one or exceeds a uniform random number", sp)
    else:
        R.check(no, "C15/reject", w, "a step is skipped if the value is below one and does not exceed a uniform random number", sp)


ACCEPT = (0.0, 0.0001, 0.0101, 0.3, 0.5, 0.77, 0.999, 1.0, 1.5, 3e9)
DRAWN = (0.00005, 0.005, 0.05, 0.1, 0.31, 0.49, 0.51, 0.76, 0.8, 0.95, 0.9995)


def c15_points(R, it, A, al, w, sp):
    """the decision as a table: the path's conditions on the value and the drawn number, evaluated"""
    from rules_accept import value
    Ds = [e.ret for e in it.draws if unit_draw(e) not in (None, False, "bool")]
    if len(Ds) != 1:
        return
    D = Ds[0]
    L = [c for c in it.lits if A in set(subterms(c)) or D in set(subterms(c))]
    for a in ACCEPT:
        for d in DRAWN:
            try:
                if not all(value(c, {A: a, D: d}, {}) for c in L):
                    continue
            except (Undecided, TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError):
                return
            if (a >= 1 or d < a) != (not it.skips):
                was, R.taint = R.taint, any(foreign(c, al) for c in it.lits if c not in L)
                if it.skips:
                    R.bad("C15/reject", w, "a step is skipped if the value is below one and does not exceed a uniform random number (value %r, number %r)" % (a, d), sp)
                else:
                    R.bad("C15/accept", w, "a step is taken if the value is at least one or exceeds a uniform random number (value %r, number %r)" % (a, d), sp)
                R.taint = was
                return


def c15_table(R, S, sl):
    """the known memory of all larger lengths is lowered as well"""
    w, sp = sl.where, sl.L.span
    B, P = sl.B, sl.P
    if B is None or P is None:
        raise Undecided("known memory")
    for it in sl.its:
        if it.kind != "back" or not it.at_leaf or sl.H is None or it.q.upd[sl.H] is sl.H or beyond(it, B, P):
            continue
        al = allow(it)
        with R.under(it.lits, al):
            ch, base = table_changes(it.ev, it.f, it.q.upd[B], {B})
            if base is not B:
                raise Undecided("known memory")
            v = it.mem
            if it.f.decide(le(sel(B, length(P)), v)) is True and not ch:
                raise Undecided("lowering")
            lo = add(length(P), num(1)) if it.f.decide(le(sel(B, length(P)), v)) is True else None
            for c in ch:
                same = compare(c.f, c.new, v, al)
                if same is not True:
                    continue
                if c.L is None:
                    if c.f.decide(eq(c.idx, length(P))) is True:
                        lo = add(length(P), num(1))
                    continue
                if not c.full:
                    continue
                for q in backs(c.L):
                    nv = [q.upd[x] for x in c.L.entry if c.L.entry[x] is not None and x in q.upd and (x is q.upd[x] or x in set(subterms(q.upd[x]))) and any(y.op == "upd" and y.a[0] is x for r in backs(c.L) for y in [r.upd[x]])]
                    if nv and nv[0].op == "phi" and feasible(q.facts) and not any(q.facts.decide(le(o, v)) is True for o in c.olds):
                        R.check(sure(it, q.facts, le(c.old, v), al, set(sl.L.entry) | set(c.L.entry) | {K(c.L)}), "C15/table", w, "a found pattern lowers the known memory of all larger lengths", sp)
                if it.f.decide(eq(c.hi, length(B))) is True and (it.f.decide(le(c.lo, length(P))) is True or lo is not None and it.f.decide(le(c.lo, lo)) is True):
                    lo = length(B)
            und = any(foreign(c.new, al) or foreign(c.lo, al) or foreign(c.hi, al) for c in ch if c.lo is not None)
            R.check(True if lo is not None and lo is length(B) else (None if und else False), "C15/table", w, "a found pattern lowers the known memory of all larger lengths", sp)


RULES = {"C07": driver("C07", c07), "C08": driver("C08", c08), "C09": driver("C09", c09), "C10": driver("C10", c10), "C11": driver("C11", c11), "C14": driver("C14", c14), "C15": driver("C15", c15)}

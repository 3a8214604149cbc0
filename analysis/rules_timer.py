"""C12 (timer)."""
from rulelib import *

CFGS = (("on", ""), ("off", " (release)"))
BLOCK = re.compile(r"^(condvar\.wait|thread\.(join|sleep|park)|chan\.recv)")


def sync_leaves(t, path=()):
    """[(path, value)] of the mutexes, condition variables and atomics in an aggregate"""
    r = []
    if t.op == "agg":
        if t.a[0] in ("prim::Mutex", "prim::Condvar", "prim::Atomic"):
            return [(path, t)]
        for n, v in zip(t.a[2], t.a[3]):
            r += sync_leaves(v, path + ((str(n)),))
    return r


class Timer:
    def __init__(self, R, ctx, cfg, rel):
        self.rel = rel
        q = r"\btimer::Timer::%s$"
        self.new_b, self.start_b, self.fin_b = (ctx.find(q % n, cfg) for n in ("new", "start", "finished"))
        I, outs = summarise(R, ctx, self.new_b, cfg)
        self.new = [o for o in outs if o.kind == "ret"]
        if len(self.new) != 1:
            raise Undecided("Timer::new has %d results" % len(self.new))
        self.t0 = self.new[0].ret
        self.leaves = sync_leaves(self.t0)
        I, self.start = summarise(R, ctx, self.start_b, cfg, names=["timer", "duration"])
        I, self.fin = summarise(R, ctx, self.fin_b, cfg, names=["timer"])
        self.me, self.dur = mk("sym", "timer"), mk("sym", "duration")
        self.drop = None
        self.drops = ctx.find(r"\btimer::.* as std::ops::Drop>::drop$", cfg, many=True)
        d = ctx.find(r"timer::Timer as std::ops::Drop>::drop$", cfg, many=True)
        if d:
            I, self.drop = summarise(R, ctx, d[0], cfg, names=["timer"])

    def init(self, ident):
        """initial content of the mutex or atomic with that identity"""
        for p, v in self.leaves:
            if getp(self.me, p) == ident and v.a[0] != "prim::Condvar":
                return v.a[3][1]
        return None

    def kind(self, ident):
        for p, v in self.leaves:
            if getp(self.me, p) == ident:
                return v.a[0].split("::")[1]
        return None


def put(t, sub_):
    """substitute"""
    from term import subst
    return subst(t, sub_)


def flat(evs):
    """events in order (loops and threads excluded)"""
    return [e for e in evs if not isinstance(e, (LoopEv, SpawnEv))]


def has_loop(evs):
    return any(isinstance(e, LoopEv) for e in evs)


def c12(R, ctx):
    for cfg, rel in CFGS:
        T = None
        with guard(R, "C12/fields"):
            T = Timer(R, ctx, cfg, rel)
        if T is None:
            continue
        T.load = T.atom = T.said = None
        with guard(R, "C12/poll", "Timer::finished" + rel):
            poll(R, T, "Timer::finished" + rel)
        if T.atom is None:
            R.und("C12/poll", "Timer::finished" + rel, "what is polled is not understood")
            continue
        T.mutex = T.cond = T.stop = T.handle = None
        with guard(R, "C12/fire", "Timer::start" + rel):
            start(R, T, "Timer::start" + rel)
        with guard(R, "C12/drop", "Timer::drop" + rel):
            drop(R, T, "Timer::drop" + rel)
        with guard(R, "C12/others", "timer" + rel):
            others(R, ctx, cfg, T, "timer" + rel)


def reports(T, f, e):
    """does this event make the timer report finished: True / False / None (other events: False)"""
    if not isinstance(e, Ev) or not e.name.startswith("atomic.") or e.name == "atomic.load" or not e.args or e.args[0] != T.atom:
        return False
    if e.name not in ("atomic.store", "atomic.swap"):
        if e.name == "atomic.fetch_or" or e.name == "atomic.fetch_and":
            return decide(f, T.said(e.args[1])) if e.args[1] == TRUE or e.args[1] == FALSE else None
        return None
    return decide(f, T.said(e.args[1]))


def poll(R, T, w):
    outs = [o for o in T.fin if feasible(o.facts)]
    loads = []
    for o in outs:
        with R.under(o.lits, lambda x: x.op == "ret"):
            for e in flat(o.events):
                if isinstance(e, Ev) and BLOCK.match(e.name):
                    R.bad("C12/poll", w, "polling waits (%s)" % e.name, e.span)
                elif isinstance(e, LockEv) and e.kind == "lock":
                    R.und("C12/poll", w, "polling takes a lock", e.span)
                elif isinstance(e, Ev) and e.name.startswith("atomic.") and T.kind(e.args[0]) == "Atomic":
                    loads.append(e)
            R.check(not has_loop(o.events) or None, "C12/poll", w, "polling does not loop")
    ids = {e.args[0] for e in loads}
    rets = [o for o in outs if o.kind == "ret"]
    if len(ids) != 1 or any(o.kind == "panic" for o in outs):
        if not ids and rets and all(o.ret in (TRUE, FALSE) for o in rets) and len({o.ret for o in rets}) == 1:
            R.bad("C12/poll", w, "polling always gives the same answer")
        raise Undecided("polling reads %d flags" % len(ids))
    T.atom = ids.pop()
    from term import subst

    def said(v):
        """what a poll returns while the flag is v"""
        r = None
        for o in rets:
            m = {e.ret: v for e in flat(o.events) if isinstance(e, Ev) and e.name.startswith("atomic.") and e.args[0] == T.atom}
            f = o.facts.__class__()
            lits = [subst(l, m) for l in o.lits]
            if any(decide(f, l) is False for l in lits):
                continue
            if all(decide(f, l) is True for l in lits):
                return subst(o.ret, m)
            return mk("sym", "unknown")
        return mk("sym", "unknown")
    T.said = said
    f = outs[0].facts.__class__()
    v0 = T.init(T.atom)
    R.check(neg3(decide(f, said(v0))), "C12/poll", w, "a timer that was never started has not finished")
    for o in rets:
        for e in flat(o.events):
            if isinstance(e, Ev) and e.name.startswith("atomic.") and e.args[0] == T.atom and e.name != "atomic.load":
                v = e.args[1] if len(e.args) > 1 and e.name in ("atomic.swap", "atomic.store") else None
                d = None if v is None else decide(f, said(v))
                if d is False:
                    # harmless only if the flag was not set before
                    d2 = decide(o.facts, said(e.ret)) if e.name == "atomic.swap" else None
                    R.check(d2 is False or (False if not o.lits else None), "C12/poll", w, "a finished timer keeps reporting it", e.span)
                elif d is True:
                    R.check(None if o.lits else False, "C12/poll", w, "polling does not finish the timer", e.span)
                else:
                    R.und("C12/poll", w, "polling changes the flag", e.span)
            else:
                R.ok("C12/poll", w, "polling only reads the flag")


def neg3(x):
    return None if x is None else not x


def start(R, T, w):
    outs = [o for o in T.start if feasible(o.facts) and o.kind == "ret"]
    for o in outs:
        with R.under(o.lits):
            sp = [e for e in o.events if isinstance(e, SpawnEv)]
            for e in flat(o.events):
                if isinstance(e, Ev) and BLOCK.match(e.name):
                    R.und("C12/fire", w, "starting a timer waits", e.span)
                r = reports(T, o.facts, e)
                if r is not False:
                    R.check(None if r is None or o.lits else False, "C12/fire", w, "starting a timer does not make it report finished", e.span)
            if len(sp) != 1 or sp[0].how != "thread":
                R.check(False if not sp and not o.lits and not has_loop(o.events) else None, "C12/fire", w, "starting a timer starts one thread that waits")
                continue
            sp = sp[0]
            me1 = o.state.store.get(("P", "timer"), T.me)
            hit = [x for x in subterms(me1) if x.op == "agg" and x.a[0] == "prim::Join" and x.a[3][0] == mk("thread", sp.cid)]
            R.check(bool(hit), "C12/join", w, "the handle of the thread is kept, so that dropping the timer can wait for it", sp.span)
            if hit:
                T.handle = find_path(me1, hit[0])
            for k, s, _ in sp.paths:
                evs = list(unlist(s.trace, sp.mark))
                lits = list(unlist(s.lits, sp.lits0))
                if feasible(s.facts):
                    thread_path(R, T, w, k, s, evs, lits)


def find_path(t, x, path=()):
    if t == x:
        return path
    if t.op == "with":
        p = find_path(t.a[2], x, path + (t.a[1],))
        if p is not None:
            return p
        return find_path(t.a[0], x, path)
    if t.op == "agg":
        for n, v in zip(t.a[2], t.a[3]):
            p = find_path(v, x, path + (str(n),))
            if p is not None:
                return p
    return None


def thread_path(R, T, w, kind, s, evs, lits, f=None, depth=0):
    f = s.facts if f is None else f
    for e in evs:
        if isinstance(e, Ev) and e.name == "atomic.store" and e.args and e.args[0] == T.atom and reports(T, f, e) is None and depth < 3:
            for c in (T.said(e.args[1]), neg(T.said(e.args[1]))):
                g = f.assume(c)
                if feasible(g):
                    thread_path(R, T, w, kind, s, evs, lits + [c], g, depth + 1)
            return
    known = lambda x: x.op in ("ret", "locked")
    for L in evs:
        if isinstance(L, LoopEv):
            for q in L.loop.paths:
                for e in q.events:
                    if q.kind == "back" and isinstance(e, Ev) and e.name == "condvar.wait_timeout" and full(T, q.facts, e):
                        R.check(None if foreign_back(L.loop, q, known) else False, "C12/wake", w, "a spurious wake-up does not start the duration again", e.span)
    if has_loop(evs) or kind not in ("ret",):
        R.und("C12/fire", w, "the waiting thread loops or panics on a condition")
        return
    evs = flat(evs)
    mine = [e for e in evs if isinstance(e, Ev) and e.name not in ("atomic.load",)]
    waits = [e for e in mine if e.name.startswith("condvar.wait")]
    sleeps = [e for e in mine if e.name.startswith("thread.sleep") or e.name.startswith("thread.park")]
    other = [e for e in mine if e not in waits and e not in sleeps and not e.name.startswith(("atomic.", "condvar.notify", "drop:"))]
    rep = [(i, e, reports(T, f, e)) for i, e in enumerate(evs)]
    rep = [x for x in rep if x[2] is not False]
    foreign_ = any(foreign(c, known) for c in lits)
    with R.under((), known):
        if other:
            R.und("C12/fire", w, "the waiting thread does something else: %s" % other[0].name, other[0].span)
            return
        for e in waits:
            waiting(R, T, w, f, e, lits)
        for e in sleeps:
            R.check(None if foreign_ else False, "C12/drop", w, "the waiting thread can be woken at any time", e.span)
        # a report
        for i, e, r in rep:
            if r is None:
                R.und("C12/fire", w, "what is stored is not understood", e.span)
                continue
            before = [x for x in evs[:i] if x in waits]
            done = [x for x in before if "timeout" in x.name and decide(f, x.ret) is True]
            if not before and not any(x in sleeps for x in evs[:i]):
                if decide(f, eq(T.dur, num(0))) is True:
                    R.ok("C12/fire", w, "nothing to wait for", e.span)
                    continue
                R.check(None if foreign_ else False, "C12/fire", w, "the timer reports finished only after it waited", e.span)
                continue
            c = True if done and all(full(T, f, x) for x in done) else None
            if c is None and not sleeps and not foreign_ and len(before) == 1 and "timeout" in before[0].name:
                x = before[0]
                if not full(T, f, x) and compare(f, x.args[2], T.dur, known, fns=True) is False:
                    c = False
                elif full(T, f, x) and decide(f, x.ret) is not True:
                    c = False
            elif c is None and before and not sleeps and not foreign_ and all("timeout" not in x.name for x in before):
                c = False
            R.check(c, "C12/fire", w, "the timer reports finished only after its whole duration elapsed without being dropped", e.span)
        if not rep:
            # it ended without a report: only because the timer is being dropped
            if not waits:
                m = [x for x in evs if isinstance(x, LockEv)]
                c = None if m and lits or foreign_ or sleeps else False
                R.check(c, "C12/fire", w, "the thread of a started timer waits")
                return
            x = waits[-1]
            if "timeout" in x.name and decide(f, x.ret) is True:
                stopped = decide(f, eq_init(T, x.args[1], x.content)) is False
                R.check(True if stopped else (None if foreign_ or any(x.content in subterms(l) for l in lits) else False), "C12/fire", w,
                        "the timer reports finished when its duration elapsed", x.span)
            elif x.name.endswith("while"):
                R.check(True if decide(f, x.ret) is False or "timeout" not in x.name else None if foreign_ else False, "C12/fire", w,
                        "the timer reports finished when its duration elapsed", x.span)
            else:
                stopped = decide(f, eq_init(T, x.args[1], x.content)) is False
                R.check(True if stopped else (None if foreign_ or any(x.content in subterms(l) for l in lits) else False), "C12/wake", w,
                        "a spurious wake-up does not end the timer", x.span)


def foreign_back(L, q, known):
    from term import subst
    ks = lambda x: known(x) or x.op in ("phi", "k")
    return any(foreign(c, ks) for c in q.lits)


def full(T, f, x):
    return len(x.args) > 2 and compare(f, x.args[2], T.dur) is True


def eq_init(T, mid, content):
    """condition: the content of the mutex is still the initial one"""
    v = T.init(mid)
    if v is None:
        raise Undecided("initial content of the mutex")
    if v == FALSE:
        return neg(content)
    if v == TRUE:
        return content
    return eq(content, v)


def waiting(R, T, w, f, e, lits):
    """one wait on a condition variable"""
    if T.kind(e.args[0]) != "Condvar" or T.kind(e.args[1]) != "Mutex":
        R.und("C12/wake", w, "what the thread waits on is not understood", e.span)
        return
    T.cond, T.mutex = e.args[0], e.args[1]
    i0 = T.init(T.mutex)
    if e.name.endswith("while"):
        if not e.cases:
            R.und("C12/wake", w, "the waiting condition is not understood", e.span)
            return
        go = stop = None
        f0 = f.__class__()
        for nme, c in (("go", eq_init(T, T.mutex, e.content)), ("stop", neg(eq_init(T, T.mutex, e.content)))):
            g = f0.assume(c)
            res = set()
            for ls, r, after in e.cases:
                h = g
                for l in ls:
                    h = h.assume(l)
                if feasible(h) and not any(decide(g, l) is False for l in ls):
                    res.add(decide(h, r) if not (after is not None and compare(h, after, e.content) is not True) else None)
            v = res.pop() if len(res) == 1 else None
            if nme == "go":
                R.check(v, "C12/wake", w, "the thread keeps waiting while the timer is not being dropped", e.span)
            else:
                R.check(neg3(v), "C12/drop", w, "the thread stops waiting when the timer is being dropped", e.span)
                if v is False:
                    T.stop = True
        return
    # without a condition: it must be checked by hand under the lock
    c = decide(f, eq_init(T, T.mutex, e.before))
    R.check(True if c is True else (None if any(e.before in subterms(l) for l in lits) else False), "C12/drop", w,
            "a notification that came before the thread waits is not missed", e.span)


def drop(R, T, w):
    if T.drop is None:
        R.check(False if T.handle is not None and T.cond is not None and not T.drops else None, "C12/drop", w, "dropping a timer wakes its thread and waits for it")
        return
    for o in T.drop:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        f = o.facts
        with R.under(o.lits):
            if has_loop(o.events) or any(isinstance(e, SpawnEv) for e in o.events):
                R.und("C12/drop", w, "dropping loops")
                continue
            evs = flat(o.events)
            for e in evs:
                r = reports(T, f, e)
                if r is not False:
                    R.check(None if r is None else False, "C12/drop", w, "dropping a timer does not make it report finished", e.span)
            joins = [(i, e) for i, e in enumerate(evs) if isinstance(e, Ev) and e.name == "thread.join"]
            H = getp(T.me, T.handle) if T.handle else None
            opt = None
            if H is not None:
                # the place the handle is kept in: an option around it
                opt = getp(T.me, T.handle[:-1]) if len(T.handle) > 1 and T.handle[-1] == "0" else getp(T.me, T.handle)
                started = decide(f, isv(opt, "Some"))
            else:
                started = None
            if started is False:
                R.ok("C12/join", w, "nothing to wait for: the timer was not started")
                R.check(not joins or None, "C12/join", w, "nothing is joined if the timer was not started")
                continue
            R.check(True if joins and started is True else (None if H is None or joins else False), "C12/join", w,
                    "dropping a started timer waits for its thread")
            if T.cond is None or T.mutex is None:
                continue
            notes = [(i, e) for i, e in enumerate(evs) if isinstance(e, Ev) and e.name.startswith("condvar.notify")]
            mine = [(i, e) for i, e in notes if e.args[0] == T.cond]
            locks = [i for i, e in enumerate(evs) if isinstance(e, LockEv) and e.kind == "lock" and e.mid == T.mutex]
            unl = [(i, e) for i, e in enumerate(evs) if isinstance(e, LockEv) and e.kind == "unlock" and e.mid == T.mutex]
            if not mine:
                R.check(None if notes else False, "C12/drop", w, "dropping a timer wakes its thread")
                continue
            if not locks:
                R.bad("C12/drop", w, "the flag is changed under the lock of the waiting thread, so that the notification cannot be missed", mine[0][1].span)
                continue
            lt_ = [(i, e) for i, e in unl if T.stop and decide(f, eq_init(T, T.mutex, e.val)) is False]
            st = [(i, e) for i, e in unl if decide(f, eq_init(T, T.mutex, e.val)) is True or compare(f, e.val, e.val) and e.val.op == "locked"]
            if not lt_ and T.stop:
                R.check(False if unl and len(st) == len(unl) else None, "C12/drop", w, "dropping a timer sets the flag its thread waits for", evs[locks[0]].span)
                continue
            if not lt_:
                R.und("C12/drop", w, "what ends the waiting is not understood")
                continue
            ul = lt_[0][0]
            lk = max([i for i in locks if i < ul], default=None)
            R.check(any(i > lk for i, e in mine) if lk is not None else None, "C12/drop", w, "the thread is notified after the flag was set", mine[-1][1].span)
            for i, e in joins:
                # the thread needs the lock to return from its wait
                R.check(ul < i, "C12/drop", w, "the flag is set and the lock released before the thread is waited for", e.span)
                R.check(any(j < i for j, _ in mine), "C12/drop", w, "the thread is notified before it is waited for", e.span)
                held = sum(1 for j in locks if j < i) > sum(1 for j, _ in unl if j < i)
                R.check(not held, "C12/drop", w, "the lock is not held while waiting for the thread", e.span)


def others(R, ctx, cfg, T, w):
    """no other function of the module makes a timer finish"""
    for b in ctx.find(r"\btimer::", cfg, many=True):
        if re.search(r"timer::Timer::(new|start|finished)$|Drop>::drop$|::tests?::", b["key"]):
            continue
        with guard(R, "C12/others", w):
            I, outs = summarise(R, ctx, b, cfg)
            for o in outs:
                if o.kind == "ret" and feasible(o.facts):
                    for e in flat(o.events):
                        if isinstance(e, Ev) and e.name.startswith("atomic.") and e.name != "atomic.load":
                            R.check(None, "C12/others", w, "only the waiting thread makes a timer finish", e.span)
            # a default timer is a new one
            if len(outs) == 1 and outs[0].kind == "ret" and outs[0].ret is not None and outs[0].ret.op == "agg" and outs[0].ret.a[0] == T.t0.a[0]:
                l1 = [(p, v.a[3][1]) for p, v in sync_leaves(outs[0].ret) if v.a[0] != "prim::Condvar"]
                l0 = [(p, v.a[3][1]) for p, v in T.leaves if v.a[0] != "prim::Condvar"]
                R.check(l1 == l0, "C12/poll", w, "every timer starts unfinished")
    R.ok("C12/others", w, "functions of the module were examined")


RULES = {"C12": c12}

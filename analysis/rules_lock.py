"""C13 (locks): lock discipline on the interpreted paths, and of all guards of the compiled code (logging included)."""
from rules_search import *
from rules_timer import Timer

EXPLORE = re.compile(r"Sweep<.*Iterator>::next$|Sweep::<.*>::skip_current$|FocusIterator>::(next_and_focus|.*)$|Focus<.*>::focus")
TDROP = re.compile(r"drop:.*\btimer::Timer|timer::Timer.*Drop>::drop$")
BLOCKING = re.compile(r"^(condvar\.wait|thread\.(join|sleep|sleep_ms|park|park_timeout)$|scope\.join|call_fn|chan\.recv|entropy)")


class Walk:
    """held locks along the events of a thread"""

    def __init__(self, R, name, w, al=None, known=None):
        self.R, self.name, self.w = R, name, w
        self.edges = {}
        self.memo = {}
        self.seen = set()
        self.sites = set()
        self.depth = 0

    def note(self, cond, rule, detail, span, sure=True):
        k = (cond, rule, detail, tuple(span[:2]) if span else None)
        if k in self.seen:
            return
        self.seen.add(k)
        self.R.check(cond, rule, self.w, detail, span)

    def thread(self, evs):
        return self.walk(list(evs), ())

    def walk(self, evs, held):
        """held: tuple of mutexes in the order of acquisition"""
        for e in evs:
            if isinstance(e, LockEv):
                n = self.name(e.mid)
                if e.kind == "lock":
                    self.sites.add(tuple(e.span[:2]) if e.span else None)
                    self.note(e.mid not in held, "C13/twice", "no lock is taken while the thread holds it: %s" % n, e.span)
                    for h in held:
                        if h != e.mid:
                            self.edges.setdefault((h, e.mid), e.span)
                    if not held:
                        self.note(True, "C13/order", "taken while no other lock is held: %s" % n, e.span)
                    held = held + (e.mid,)
                else:
                    held = tuple(h for h in held if h != e.mid)
            elif isinstance(e, LoopEv):
                held = self.loop(e, held)
            elif isinstance(e, SpawnEv):
                pass
            elif isinstance(e, Ev):
                x = None
                if BLOCKING.match(e.name):
                    x = {"call_fn": "calls an accept function", "entropy": "reads operating system entropy"}.get(e.name, "waits for another thread")
                    if e.name.startswith("condvar.wait"):
                        x = "waits for a condition variable of another lock"
                elif e.raw is not None and EXPLORE.search(e.raw):
                    x = "explores the search tree"
                elif TDROP.search(e.name):
                    x = "waits for another thread"
                if x:
                    h = [i for i in held]
                    self.note(not h, "C13/held", "no lock is held while a thread %s%s" % (x, ": " + ", ".join(self.name(i) for i in h) if h else ""), e.span)
        return held

    def loop(self, e, held):
        k = (id(e.loop), held)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = {}
            for q in e.loop.paths:
                if feasible(q.facts):
                    r[id(q)] = self.walk(q.events, held)
            more = {h for q in e.loop.paths if q.kind == "back" and id(q) in r for h in r[id(q)] if h not in held}
            if more and self.depth < 3:
                # a lock that is still held when the next iteration starts
                self.depth += 1
                r2 = self.loop(e, held + tuple(sorted(more, key=str)))
                self.depth -= 1
        return r.get(id(e.exit), held)


def cycle(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)

    def dfs(x, path):
        for y in sorted(g.get(x, ()), key=str):
            if y in path:
                return path[path.index(y):] + [y]
            c = dfs(y, path + [y])
            if c:
                return c
        return None
    for x in sorted(g, key=str):
        c = dfs(x, [x])
        if c:
            return c
    return None


def order(R, W, w):
    c = cycle(W.edges)
    if c:
        ps = [(W.name(a), W.name(b), W.edges.get((a, b))) for a, b in zip(c, c[1:])]
        R.check(False, "C13/order", w, "locks are always taken in the same order: " + "; ".join("%s before %s (line %s)" % (a, b, s[1] if s else "?") for a, b, s in ps), ps[0][2])
    else:
        for (a, b), s in W.edges.items():
            R.check(True, "C13/order", w, "%s before %s" % (W.name(a), W.name(b)), s)


def all_spawns(evs, seen):
    for e in evs:
        if isinstance(e, SpawnEv):
            if id(e) not in seen:
                seen.add(id(e))
                yield e
                for k, s, _ in e.paths:
                    for x in all_spawns(unlist(s.trace, e.mark), seen):
                        yield x
        elif isinstance(e, LoopEv) and id(e.loop) not in seen:
            seen.add(id(e.loop))
            for q in e.loop.paths:
                for x in all_spawns(q.events, seen):
                    yield x


def c13_search(R, S, w):
    def nm(mid):
        v = S.I.mutexes.get(mid)
        return {"hnew": "the shared results", "fill": "the shared table"}.get(v.op if v is not None else None, "the lock of %s" % short(v if v is not None else mid, 2))
    W = Walk(R, nm, w)
    n = 0
    for o in S.outs:
        W.thread(o.events)
        for e in all_spawns(o.events, set()):
            if id(e) in W.memo:
                continue
            W.memo[id(e)] = True
            for k, s, _ in e.paths:
                if k == "ret" and feasible(s.facts):
                    n += 1
                    W.thread(unlist(s.trace, e.mark))
    if S.multi_outs and not n:
        R.und("C13/held", w, "tasks of the search")
    order(R, W, w)


def c13(R, ctx):
    driver("C13/paths", c13_search)(R, ctx)
    for cfg, rel in CFGS:
        with guard(R, "C13/timer", "timer" + rel):
            T = Timer(R, ctx, cfg, rel)
            W = Walk(R, lambda m: "the lock of the timer", "timer" + rel)
            for outs in (T.new, T.start, T.fin, T.drop or []):
                for o in outs:
                    if o.kind == "ret" and feasible(o.facts):
                        W.thread(o.events)
                        for e in all_spawns(o.events, set()):
                            for k, s, _ in e.paths:
                                if feasible(s.facts):
                                    W.thread(unlist(s.trace, e.mark))
            order(R, W, "timer" + rel)
        with guard(R, "C13/guards", "all functions" + rel):
            guards(R, ctx, cfg, rel)


# ------------------------------------------------------------------ guards of the compiled code
GUARD = re.compile(r"(?:Mutex|RwLockRead|RwLockWrite|RwLock)\w*Guard<")
CLOSURE = re.compile(r"\{closure")
CALLS_BLOCK = re.compile(r"Sweep<.*Iterator>::next$|skip_current$|next_and_focus$|JoinHandle::<.*>::join$|ScopedJoinHandle.*::join$|Pool::scoped|thread::scope$|thread::sleep|Receiver.*::recv|from_entropy$")
SPAWNS = re.compile(r"Scope.*::execute|Scope.*::spawn|thread::spawn$|Builder::spawn")


def gclass(ty):
    """content type of the guard an owned value of this type contains"""
    if ty.lstrip().startswith("&"):
        return None
    m = GUARD.search(ty)
    if not m:
        return None
    i, d, s = m.end(), 1, m.end()
    while i < len(ty) and d:
        d += ty[i] == "<"
        d -= ty[i] == ">"
        i += 1
    inner = ty[s:i - 1].strip()
    return re.sub(r"^'\w+,\s*", "", inner)


class Body:
    pass


def guards(R, ctx, cfg, rel):
    P = ctx.prog(cfg)
    bodies = {k: b for k, b in P.bodies.items() if b["krate"] == "mbqc_scheduling" and not re.search(r"\btests?::", k)}
    closures = {}
    for k, b in bodies.items():
        if CLOSURE.search(k):
            closures[b["path"]] = k
    made = {}
    for k, b in bodies.items():
        for bl in b["blocks"]:
            t = bl["t"]
            if t["k"] == "call" and re.search(r"Mutex::<.*>::new$|RwLock::<.*>::new$|Mutex<.*>::new$|Mutex::new$", t.get("r") or t.get("f") or ""):
                ty = b["locals"][t["p"][0]]["ty"]
                m = re.search(r"Mutex<(.*)>$", ty)
                made.setdefault(m.group(1) if m else ty, set()).add((k, str(t["s"][:2])))
    info = {}
    for k, b in bodies.items():
        info[k] = scan(b, bodies, closures)
    # transitive closure
    lk = {k: dict(i.locks) for k, i in info.items()}
    bk = {k: dict(i.blocks) for k, i in info.items()}
    ch = True
    while ch:
        ch = False
        for k, i in info.items():
            for c in i.callees:
                for src, dst in ((lk, lk), (bk, bk)):
                    for x, sp in src.get(c, {}).items():
                        if x not in dst[k]:
                            dst[k][x] = sp
                            ch = True
    edges = {}
    nsite = 0
    for k, i in info.items():
        for bb, held, t, kinds, callees in i.sites:
            nsite += 1
            visited = (k, bb) in R.blocks
            where = k.split("mbqc_scheduling::")[-1] + rel
            took, blocks = {}, {}
            for kd, c in kinds:
                (took if kd == "lock" else blocks)[c] = t["s"]
            for c in callees:
                for x, sp in lk.get(c, {}).items():
                    took.setdefault(x, t["s"])
                for x, sp in bk.get(c, {}).items():
                    blocks.setdefault(x, t["s"])
            for c in took:
                for h in held:
                    if h == c:
                        one = len(made.get(c, ())) == 1
                        R.check(None if visited or not one else False, "C13/twice", where, "no lock is taken while the thread holds it: the lock of a %s" % c, t["s"])
                    else:
                        edges.setdefault((h, c), (t["s"], visited, where))
            for c in blocks:
                if held:
                    R.check(None if visited else False, "C13/held", where, "no lock is held while a thread explores the search tree or waits: %s" % ", ".join(sorted(held)), t["s"])
            if not took and not blocks:
                R.check(True, "C13/guards", where, "call with a lock held")
    c = cycle(edges)
    if c:
        es = [edges.get((a, b)) for a, b in zip(c, c[1:])]
        hidden = [e for e in es if e and not e[1]]
        one = all(len(made.get(x, ())) == 1 for x in c)
        R.check(False if hidden and one else None, "C13/order", hidden[0][2] if hidden else es[0][2], "locks are always taken in the same order: " + " before ".join(c), (hidden or es)[0][0])
    else:
        R.check(True, "C13/order", "all functions" + rel, "%d pairs of locks held together, %d calls with a lock held" % (len(edges), nsite))
    # shared data is reached through its lock only: the language guarantees it as long as no raw pointers are used
    n = 0
    for k, b in bodies.items():
        if not re.search(r"\bsearch::|\btimer::", k):
            continue
        n += 1
        raw = None
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s["k"] == "assign" and not s["s"][2]:
                    for p in [s["p"]] + ([s["r"]["p"]] if s["r"].get("p") else []):
                        if rawderef(b, p):
                            raw = s["s"]
        R.check(None if raw else True, "C13/shared", k.split("mbqc_scheduling::")[-1] + rel, "no access through raw pointers", raw)


def rawderef(b, p):
    ty = b["locals"][p[0]]["ty"]
    if len(p) > 1 and p[1]["k"] == "deref" and ty.startswith(("*const", "*mut")):
        return "Box" not in ty
    return False


def locals_of_op(o):
    return [o["p"]] if o["k"] in ("copy", "move") else []


def scan(b, bodies, closures):
    """flow-sensitive: which guards may be held at each call"""
    I = Body()
    I.locks, I.blocks, I.callees, I.sites = {}, {}, set(), []
    tys = [l["ty"] for l in b["locals"]]
    cls = {i: gclass(t) for i, t in enumerate(tys)}
    cls = {i: c for i, c in cls.items() if c}
    blocks = b["blocks"]
    start = frozenset(i for i in range(1, b["argc"] + 1) if i in cls)
    inn = {0: start}
    work = [0]
    out_call = {}
    while work:
        x = work.pop()
        h = set(inn[x])
        bl = blocks[x]
        for s in bl["s"]:
            if s["k"] == "dead":
                h.discard(s["l"])
            elif s["k"] == "assign":
                moved(s["r"], h)
                if s["p"][0] in cls and gives(s["r"], b, cls):
                    h.add(s["p"][0])
        t = bl["t"]
        at = frozenset(h)
        if t["k"] == "call":
            for a in t["a"]:
                if a["k"] == "move" and len(a["p"]) >= 1:
                    h.discard(a["p"][0])
            out_call[x] = frozenset(h)
            if t["p"][0] in cls:
                h.add(t["p"][0])
        elif t["k"] == "drop":
            if len(t["p"]) == 1:
                h.discard(t["p"][0])
        for y in succ(t):
            if y is None or blocks[y].get("c"):
                continue
            n = inn.get(y)
            m = frozenset(h) | (n or frozenset())
            if n is None or m != n:
                inn[y] = m
                if y not in work:
                    work.append(y)
    for x, held in out_call.items():
        t = blocks[x]["t"]
        f = t.get("r") or t.get("f") or ""
        kinds, callees = [], set()
        if re.search(r"(Mutex|RwLock)\b.*::(lock|read|write)$", f):
            c = gclass(tys[t["p"][0]])
            if c:
                kinds.append(("lock", c))
                I.locks.setdefault(c, t["s"])
        if CALLS_BLOCK.search(f) or ("f" not in t):
            kinds.append(("block", f or "function value"))
            I.blocks.setdefault(f or "function value", t["s"])
        if not SPAWNS.search(f):
            rk = t.get("rk")
            if rk in bodies:
                callees.add(rk)
            for a in t["a"]:
                for p in locals_of_op(a):
                    m = tys[p[0]]
                    for path, key in closures.items():
                        if "closure" in m and path in m:
                            callees.add(key)
        I.callees |= callees
        hc = frozenset(cls[i] for i in held)
        if hc:
            I.sites.append((x, hc, t, kinds, callees))
    return I


def moved(r, h):
    for o in [r.get("o"), r.get("a") if isinstance(r.get("a"), dict) else None, r.get("b")] + list(r.get("f", []) if isinstance(r.get("f"), list) else []):
        if isinstance(o, dict) and o.get("k") == "move":
            h.discard(o["p"][0])


def gives(r, b, cls):
    """does the assigned value contain a guard"""
    if r["k"] in ("use", "cast"):
        o = r["o"]
        return o["k"] in ("copy", "move") and (o["p"][0] in cls)
    if r["k"] == "agg":
        return any(o.get("k") in ("copy", "move") and o["p"][0] in cls for o in r["f"])
    return False


def succ(t):
    k = t["k"]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["e"]]
    if k in ("goto", "drop", "assert", "call"):
        return [t.get("t")]
    return []


RULES = {"C13": c13}

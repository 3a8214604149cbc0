"""C20: what is compiled differently in debug and release builds computes the same.

Both flavours of the program (debug assertions on and off) are exported. A function whose MIR is the same in both is the
same code; its callees are judged on their own. A function that differs is summarised in both flavours, and the two sets
of paths are related: under every pair of paths that one input can take together, the results, the objects behind
references and the calls with effects have to be equal. Loops are related iteration by iteration. Paths on which the
debug build reports a node as already measured are inadmissible inputs and allowed to differ."""
import hashlib
import json
import os

import interp as IN
from rulelib import *
from stdmodel import _mutrefs

CID0 = {"ret", "after", "uninit", "mutex", "condvar", "atomic", "thread", "pool", "scope", "opq"}
SPAN = "s"     # the position of a statement or terminator; in a block it holds the statements


class Diverge(Exception):
    pass


# ------------------------------------------------------------------ the same code
def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if k != SPAN or "k" not in x}
    if isinstance(x, list):
        return [norm(v) for v in x]
    if isinstance(x, str) and "alloc" in x:
        return re.sub(r"\balloc\d+", "alloc", x)
    return x


def code(b):
    return json.dumps([norm(b["blocks"]), b["argc"], [l["ty"] for l in b["locals"][:b["argc"] + 1]]], sort_keys=True)


def digest(b):
    return hashlib.sha256(code(b).encode()).hexdigest()


def callees(b):
    """names a body refers to (calls and function values)"""
    r = set()

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k != SPAN or "k" not in x:
                    go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
        elif isinstance(x, str) and len(x) > 3 and "::" in x:
            r.add(x)
    go(b["blocks"])
    return r


# ------------------------------------------------------------------ relation of two summaries
class Rel:
    """how terms of the second program read in the first one"""

    def __init__(self, o=None):
        self.cid = dict(o.cid) if o else {}
        self.map = dict(o.map) if o else {}
        self.made = o.made if o else set()        # loops and calls of the second program
        self.skipped = set(o.skipped) if o else set()   # calls and loops without effect that only one of the programs has
        self.doubt = set(o.doubt) if o else set()       # those of them whose outcome decides where a path goes
        self.gone = dict(o.gone) if o else {}            # results of loops that only the first program has -> value before, changed?
        self.later = set(o.later) if o else set()       # what the second program does after the first difference

    def sub(self, t):
        def f(x):
            y = self.map.get(x)
            if y is not None:
                return y
            if x.op in CID0 and x.a and isinstance(x.a[0], int) and x.a[0] in self.cid:
                return mk(x.op, self.cid[x.a[0]], *[self.sub(z) if isinstance(z, T) else z for z in x.a[1:]])
            if x.op == "locked" and x.a[1] in self.cid:
                return mk("locked", self.sub(x.a[0]), self.cid[x.a[1]])
            if x.op == "ref" and x.a[1] and x.a[1][0] in ("L", "H"):
                return mk("refto", str(x.a[1][0]))
            return None
        return subst(t, f)

    def own(self, t):
        """loops and calls of the second program that a term speaks about and that have no counterpart"""
        return ids_of(t) & self.made


def ids_of(t):
    r = set()
    for x in subterms(t):
        if x.op in ("phi", "k") or x.op in CID0 and x.a:
            r.add(x.a[0])
        elif x.op == "locked":
            r.add(x.a[1])
    return r


def loop_ids(evs, acc):
    for e in evs:
        if isinstance(e, LoopEv):
            acc.add(e.loop.lid)
            for p in e.loop.paths:
                loop_ids(p.events, acc)
        elif isinstance(e, Ev):
            acc.add(e.cid)
        elif isinstance(e, SpawnEv):
            acc.add(e.cid)
            for k, s, _ in e.paths:
                loop_ids(unlist(s.trace, e.mark), acc)


def noeffect(e):
    if isinstance(e, LoopEv):
        return all(w[0][0] == "L" for w in e.loop.where.values()) and all(all(noeffect(x) for x in p.events) for p in e.loop.paths) and \
            not any(p.kind in ("ret", "panic") for p in e.loop.paths)
    if not isinstance(e, Ev):
        return False
    if e.name.startswith("drop:"):
        return True
    if "::" not in e.name:
        return False
    refs = []
    for a in e.args:
        if isinstance(a, T):
            _mutrefs(a, refs, 0)
    return not refs and not re.search(r"_print|_eprint|io::|fs::|process::|thread|sync::|Cell|Mutex|rand", e.name + " " + str(e.raw))


def works(lp):
    """does an iteration change anything that is there after it?"""
    return any(p.kind == "back" and (p.events or any(p.upd[v] is not v for v in lp.entry)) for p in lp.paths)


class Relate:
    def __init__(self, R, rule, where):
        self.R, self.rule, self.where = R, rule, where
        self.pairs = 0
        self.done = {}

    # -------- events
    def align(self, ea, eb, rel, facts):
        """relates the events of two paths; a message about the first difference, or None"""
        ea, eb = list(ea), list(eb)
        ia = ib = 0
        while ia < len(ea) or ib < len(eb):
            x = ea[ia] if ia < len(ea) else None
            y = eb[ib] if ib < len(eb) else None
            nx, ny = x is not None and noeffect(x), y is not None and noeffect(y)
            if x is not None and y is not None and self.alike(x, y) and \
                    (self.akin(x, y) or not (nx and any(self.akin(z, y) for z in ea[ia + 1:]) or ny and any(self.akin(x, z) for z in eb[ib + 1:]))):
                try:
                    m = self.event(x, y, rel, facts)
                except Diverge as e:
                    # the work may be split into loops differently
                    na, nb = (sum(isinstance(z, LoopEv) and works(z.loop) for z in l) for l in (ea[ia:], eb[ib:]))
                    if isinstance(x, LoopEv) and na != nb and na and nb:
                        raise Undecided(str(e))
                    raise
                if m:
                    loop_ids(eb[ib:], rel.later)
                    return m
                ia += 1
                ib += 1
            elif nx and not (ny and any(self.akin(x, z) for z in eb[ib + 1:])):
                loop_ids([x], rel.skipped)
                if not (isinstance(x, LoopEv) and sum(p.kind == "exit" and not measured(p.lits) for p in x.loop.paths) == 1):
                    loop_ids([x], rel.doubt)
                if isinstance(x, LoopEv):
                    for v, e in x.loop.entry.items():
                        rel.gone[v] = (e, any(feasible(p.facts) and not p.facts.eqv(p.upd[v], v) for p in backs(x.loop)))
                ia += 1
            elif ny:
                loop_ids([y], rel.skipped)
                ib += 1
            else:
                loop_ids(eb[ib:], rel.later)
                return "%s in the debug build, %s in the release build" % (self.name(x), self.name(y))
        return None

    def akin(self, x, y):
        """the same place of the source"""
        if not self.alike(x, y):
            return False
        p, q = (x.loop, y.loop) if isinstance(x, LoopEv) else (x, y)
        return p.span == q.span

    def name(self, e):
        if e is None:
            return "nothing"
        if isinstance(e, LoopEv):
            return "a loop at %s" % loc(e.loop.span)
        if isinstance(e, Ev):
            return "a call of %s" % e.name
        if isinstance(e, SpawnEv):
            return "a spawned task"
        return repr(e)

    def alike(self, x, y):
        if type(x) is not type(y):
            return False
        if isinstance(x, Ev):
            return x.name == y.name and len(x.args) == len(y.args)
        if isinstance(x, SpawnEv):
            return x.how == y.how
        if isinstance(x, LockEv):
            return x.kind == y.kind
        return True

    def event(self, x, y, rel, facts):
        if isinstance(x, Ev):
            for i, (p, q) in enumerate(zip(x.pre or x.args, y.pre or y.args)):
                if not isinstance(p, T):
                    continue
                r = self.same(facts, p, q, rel)
                if r is False:
                    return "argument %d of %s differs: %s in the debug build, %s in the release build" % (i, x.name, short(p), short(rel.sub(q)))
                if r is None:
                    raise Undecided("argument %d of %s" % (i, x.name))
            rel.cid[y.cid] = x.cid
            return None
        if isinstance(x, LoopEv):
            self.loops(x.loop, y.loop, rel, facts)
            if x.exit is not None and y.exit is not None:
                return self.align(x.exit.events, y.exit.events, rel, facts)     # the last iteration
            return None
        if isinstance(x, SpawnEv):
            rel.cid[y.cid] = x.cid
            self.tasks(x, y, rel)
            return None
        for p, q in ((x.mid, y.mid), (x.val, y.val)):
            if isinstance(p, T) and isinstance(q, T):
                v = self.same(facts, p, q, rel)
                if v is False:
                    return "%s of %s in the debug build, of %s in the release build" % (x.kind, short(p), short(rel.sub(q)))
                if v is None:
                    raise Undecided("%s of %s" % (x.kind, short(p)))
        return None

    def same(self, facts, p, q, rel):
        unify(p, q, rel)
        q = rel.sub(q)
        if facts.eqv(p, q):
            return True
        parts = fields(p, q)
        if not parts:
            return self.same1(facts, p, q, rel)
        v = [self.same(facts, x, y, rel) for x, y in parts]
        return False if False in v else None if None in v else True

    def same1(self, facts, p, q, rel):
        p = subst(p, lambda z: mk("refto", str(z.a[1][0])) if z.op == "ref" and z.a[1] and z.a[1][0] in ("L", "H") else None)
        if facts.eqv(p, q):
            return True
        if rel.own(q):
            return None
        if ids_of(p) & rel.skipped:
            # a loop that only the debug build has: without it this is what the release build has?
            g = {x for x in subterms(p) if x in rel.gone}
            if any(rel.gone[x][1] for x in g) and facts.eqv(subst(p, {x: rel.gone[x][0] for x in g}), q):
                return False
            return None
        return compare(facts, p, q)

    # -------- loops
    def loops(self, La, Lb, rel, facts):
        rel.map[mk("k", Lb.lid)] = mk("k", La.lid)
        cand = {}
        named = set()
        for pb, (root, path) in Lb.where.items():
            c = []
            for pa, w in La.where.items():
                if w == (root, path) and root[0] != "L":
                    c = [pa]
                    named.add(pb)
                    break
            else:
                same = [pa for pa in La.where if self.same(facts, La.entry[pa], rel.sub(Lb.entry[pb]), rel) is True]
                c = sorted(same, key=lambda pa: (pa.a[2] != pb.a[2], tail(pa) != tail(pb), str(pa.a[2])))
            if not c:
                # the same quantity, off by what it differed by before the loop
                for pa in La.where:
                    if tail(pa) == tail(pb):
                        d = facts.simp(sub(La.entry[pa], rel.sub(Lb.entry[pb])))
                        if intval(d) is not None:
                            c.append(sub(pa, d))
            # or it stays what it was before the loop
            cand[pb] = c or [rel.sub(Lb.entry[pb])]
        # what only the first program changes
        lone = {pa: (root, path) for pa, (root, path) in La.where.items() if root[0] != "L" and not any(pa in subterms(c) for pb in cand for c in cand[pb])}
        while True:
            r2 = Rel(rel)
            for pb, c in cand.items():
                if c:
                    r2.map[pb] = c[0]
            try:
                res = self.iterate(La, Lb, r2, cand, lone)
            except _Retry as e:
                c = cand[e.pb]
                last = c.pop(0)
                if not c and e.sure and (e.pb in named or any(x in La.where and tail(x) == tail(e.pb) for x in subterms(last))):
                    raise Diverge(e.msg)
                continue      # another candidate, or without a counterpart
            break
        rel.map = dict(res.map)
        rel.cid = dict(res.cid)

    def iterate(self, La, Lb, rel, cand, lone):
        # what does not depend on the inside of an iteration first: it tells which counterparts are wrong
        for pa in backs(La):
            for pb in backs(Lb):
                inner = set()
                loop_ids(pb.events, inner)
                loop_ids(pa.events, inner)
                g, _ = self.together(pa.facts, pa.lits, pb.lits, rel)
                if not g:
                    continue
                for vb, c in cand.items():
                    if c and not ids_of(pb.upd[vb]) & inner and not any(ids_of(x) & inner for x in [subst(c[0], pa.upd)]):
                        if self.same(g, subst(c[0], pa.upd), pb.upd[vb], Rel(rel)) is not True and (len(c) > 1 or not contains(c[0], lambda x: x in La.where)):
                            raise _Retry(vb, False, "")
        first = None
        for pa in La.paths:
            for pb in Lb.paths:
                try:
                    self.iteration(La, pa, pb, Rel(rel), cand, lone)
                except (Diverge, Undecided) as e:
                    if first is None or isinstance(first, Undecided) and isinstance(e, Diverge):
                        first = e
        if first is not None:
            raise first
        return rel

    def iteration(self, La, pa, pb, r, cand, lone):
        f = pa.facts
        msg = None
        try:
            msg = self.align(pa.events, pb.events, r, f)
        except (Diverge, Undecided):
            if not self.together(f, pa.lits, pb.lits, r)[0]:
                return
            raise
        g, sure = self.together(f, pa.lits, pb.lits, r)
        if not g:
            return
        if pa.kind != pb.kind:
            if measured(pa.lits) and pb.kind != "panic" or pa.kind == "panic" or pb.kind == "panic" and not sure:
                return
            self.fail(sure, "an iteration that %s in the debug build %s in the release build" % (ENDS[pa.kind], ENDS[pb.kind]))
        if msg:
            self.fail(sure, msg)
        self.pairs += 1
        if pa.kind != "back":
            return
        for vb, c in cand.items():
            if not c:
                continue
            ua = subst(c[0], pa.upd)
            ub = r.sub(pb.upd[vb])
            v = self.same(g, ua, ub, r)
            if v is not True:
                raise _Retry(vb, v is False and sure, "%s: %s in the debug build, %s in the release build" % (vb.a[2], short(g.simp(ua)), short(g.simp(ub))))
        for va, (root, path) in lone.items():
            if not g.eqv(pa.upd[va], va):
                self.fail(sure, "%s is changed in a loop of the debug build only: %s" % (va.a[2], short(pa.upd[va])))

    # -------- spawned tasks
    def tasks(self, x, y, rel):
        for ka, sa, _ in x.paths:
            if not feasible(sa.facts):
                continue
            for kb, sb, _ in y.paths:
                r = Rel(rel)
                lb = unlist(sb.lits, y.lits0)
                try:
                    msg = self.align(unlist(sa.trace, x.mark), unlist(sb.trace, y.mark), r, sa.facts)
                except (Diverge, Undecided):
                    if not self.together(sa.facts, unlist(sa.lits, x.lits0), lb, r)[0]:
                        continue
                    raise
                g, sure = self.together(sa.facts, unlist(sa.lits, x.lits0), lb, r)
                if not g or ka == "panic" or kb == "panic" and not sure:
                    continue
                if ka != kb:
                    self.fail(sure, "a task ends differently")
                if msg:
                    self.fail(sure, msg)
                self.pairs += 1

    def fail(self, sure, msg):
        if sure:
            raise Diverge(msg)
        raise Undecided(msg)

    def together(self, f, alits, lits, rel):
        """facts under which both paths are taken; is it sure that they can be?"""
        sure = not any(ids_of(l) & rel.doubt for l in alits)
        for l in lits:
            l = rel.sub(l)
            d = f.decide(f.simp(l))
            if d is True:
                continue
            if d is False:
                return None, False
            own = rel.own(l)
            if own and own <= rel.later:
                pass
            elif own or foreign(l, known_fn) or any(x.op in ("eq", "discr") for x in subterms(l)):
                sure = False
            g = f.assume(l)
            if g is None:
                return None, False
            f = g
        if not feasible(f):
            return None, False
        return f, sure

    # -------- whole functions
    def outs(self, A, B):
        ids = set()
        for o in B:
            loop_ids(o.events, ids)
        # everything that the second program introduces
        made = ids
        met = {}
        for ia, a in enumerate(A):
            if not feasible(a.facts):
                continue
            for ib, b in enumerate(B):
                rel = Rel()
                rel.made = made
                sure = False
                try:
                    msg = self.align(a.events, b.events, rel, a.facts)
                    g, sure = self.together(a.facts, a.lits, b.lits, rel)
                    if not g:
                        continue
                    if inadmissible(a, b):
                        continue
                    if a.kind == "panic":
                        # assertions of the debug build; panics of both are met pairwise in the loops they belong to
                        continue
                    if a.kind != b.kind:
                        if b.kind == "panic" and not sure:
                            continue
                        self.fail(sure, "%s in the debug build, %s in the release build" % (a.kind, b.kind))
                    if msg:
                        self.fail(sure, msg)
                    self.result(a, b, g, rel, sure)
                    met[ia] = met.get(ia, 0) + 1
                except Diverge as e:
                    if not self.together(a.facts, a.lits, b.lits, rel)[0] or inadmissible(a, b):
                        continue
                    self.R.bad(self.rule, self.where, str(e))
                except Undecided as e:
                    if not self.together(a.facts, a.lits, b.lits, rel)[0] or inadmissible(a, b):
                        continue
                    self.R.und(self.rule, self.where, str(e))
            if a.kind == "ret" and not met.get(ia) and not inadmissible(a, None):
                if os.environ.get("VERIF_DEBUG"):
                    print("   no counterpart:", show(a.ret)[:300], [show(c)[:200] for c in a.lits])
                self.R.und(self.rule, self.where, "a path of the debug build has no counterpart")

    def result(self, a, b, g, rel, sure):
        if a.kind == "ret":
            v = self.same(g, a.ret, rel.sub(b.ret), rel)
            self.verdict(v, sure, "the result is the same", g.simp(a.ret), g.simp(rel.sub(b.ret)))
        for r in sorted({k for k in list(a.state.store) + list(b.state.store) if k[0] == "P"}, key=str):
            x, y = a.state.store.get(r), b.state.store.get(r)
            if x is None or y is None:
                continue
            v = self.same(g, x, rel.sub(y), rel)
            self.verdict(v, sure, "%s is left in the same state" % r[1], g.simp(x), g.simp(rel.sub(y)))
        self.pairs += 1

    def verdict(self, v, sure, what, x, y):
        if v is False and sure:
            self.R.bad(self.rule, self.where, "%s; it is %s in the debug build and %s in the release build" % (what, short(x), short(y)))
        else:
            if not v and os.environ.get("VERIF_DEBUG"):
                print("  ", what, show(x)[:500], "\n   ", show(y)[:500])
            self.R.check(True if v else None, self.rule, self.where, what)


ALLOC = {"mutex", "condvar", "atomic", "pool", "scope", "thread", "uninit"}


def unify(p, q, rel):
    """objects that were created at corresponding places correspond"""
    if not (isinstance(p, T) and isinstance(q, T)):
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            for x, y in zip(p, q):
                unify(x, y, rel)
        return
    if p is q or p.op != q.op or len(p.a) != len(q.a):
        return
    if p.op in ALLOC or p.op == "locked":
        i = 1 if p.op == "locked" else 0
        if q.a[i] not in rel.cid and p.a[i] not in rel.cid.values():
            rel.cid[q.a[i]] = p.a[i]
    for x, y in zip(p.a, q.a):
        unify(x, y, rel)


ENDS = {"back": "goes on", "exit": "leaves the loop", "panic": "panics", "ret": "returns"}


class _Retry(Exception):
    def __init__(self, pb, sure, msg):
        self.pb, self.sure, self.msg = pb, sure, msg


def fields(p, q):
    """two objects as the list of their fields"""
    if p.op == "agg" and q.op == "agg":
        if p.a[0] == q.a[0] and p.a[1] == q.a[1] and len(p.a[3]) == len(q.a[3]):
            return list(zip(p.a[3], q.a[3]))
        return None
    bp, np = p, set()
    while bp.op == "with":
        np.add(bp.a[1])
        bp = bp.a[0]
    bq = q
    while bq.op == "with":
        np.add(bq.a[1])
        bq = bq.a[0]
    if np and bp is bq:
        return [(fld(p, n), fld(q, n)) for n in sorted(np)]
    return None


def tail(phi):
    """the field or variable that a loop changes"""
    return str(phi.a[2]).split(".")[-1]


def measured(lits):
    return any(c.op == "is" and c.a[1] == "Measured" for c in lits)


def inadmissible(a, b):
    """the debug build found that a node is measured a second time"""
    if a.kind == "panic":
        return b is not None and b.kind != "panic" and any(measured(p.lits) for p in exits(a.events))
    if a.kind == "ret" and a.ret is not None:
        return any(x.op == "agg" and str(x.a[0]).split("::")[-1].startswith("AlreadyMeasured") for x in subterms(a.ret))
    return False


def exits(evs):
    return [e.exit for e in evs if isinstance(e, LoopEv) and e.exit is not None]


# ------------------------------------------------------------------ the property
def c20(R, ctx):
    on, off = ctx.prog("on").bodies, ctx.prog("off").bodies
    mine = lambda p: {k: b for k, b in p.items() if b["krate"].startswith("mbqc_scheduling")}
    A, B = mine(on), mine(off)
    both = sorted(set(A) & set(B))
    every = os.environ.get("VERIF_RELATE_ALL")     # for testing the relation itself
    same = [k for k in both if code(A[k]) == code(B[k]) and not (every and re.search(every, k))]
    diff = [k for k in both if k not in set(same)]
    for k in same:
        R.ok("C20/same-code", A[k]["path"], "the function is compiled to the same code in both builds")
        R.fns.add(k)
        for i in range(len(A[k]["blocks"])):
            R.blocks.add((k, i))
    R.notes.append("%d functions in both builds, %d of them the same code; %d only in debug builds, %d only in release builds" % (
        len(both), len(same), len(set(A) - set(B)), len(set(B) - set(A))))
    if not both:
        R.und("C20/same-code", "", "no function in both builds")
        return
    jobs = []
    for k in diff:
        jobs.append((A[k]["path"] + "#" + hashlib.sha256(k.encode()).hexdigest()[:4], job(ctx, k, A, B)))
    parallel(R, jobs, "C20/builds")
    R.notes.append("functions that differ: %s" % ", ".join(sorted({A[k]["path"] for k in diff})))


def plain(n):
    return re.sub(r"'\w+", "'_", n)


def reach(names, bodies):
    """keys of the functions reachable from the given names through the bodies of one flavour"""
    byname = {}
    for b in bodies.values():
        byname.setdefault(plain(b["path"]), []).append(b)
        byname.setdefault(plain(b["key"]), []).append(b)
    seen, todo = set(), list(names)
    while todo:
        for b in byname.get(plain(todo.pop()), []):
            if b["key"] not in seen:
                seen.add(b["key"])
                todo += [x for x in callees(b) if plain(x) in byname]
    return seen


def job(ctx, k, A, B):
    def run(R):
        a, b = A[k], B[k]
        where = a["path"]
        ca, cb = callees(a), callees(b)
        # functions only one of the flavours calls are analysed with it, what both call is the same call
        inl = reach(ca - cb, A) | reach(cb - ca, B)
        skip = {plain(x["path"]) for x in list(A.values()) + list(B.values()) if x["key"] in inl}
        names = {x["path"] for x in list(A.values()) + list(B.values()) if len(x["blocks"]) > 5}
        names = [n for n in names if plain(n) not in skip and "{closure" not in n]
        pats = [r"^" + re.escape(n) + r"$" for n in sorted(names)]
        with guard(R, "C20/builds", where):
            Ia, Oa = summarise(R, ctx, a, "on", opaque=pats)
            # loops and calls of the two programs get different names
            old = dict(IN._ids)
            IN._ids.clear()
            IN._ids.update({("on", x): v for x, v in old.items()})
            Ib, Ob = summarise(R, ctx, b, "off", opaque=pats)
            rel = Relate(R, "C20/builds", where)
            rel.outs(Oa, Ob)
            R.notes.append("%s: %d x %d paths related, %d pairs possible together" % (where, len(Oa), len(Ob), rel.pairs))
    return run


RULES = {"C20": c20}

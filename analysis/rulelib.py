"""Common machinery of the rules: reports, anchors, loop shapes, three-valued comparison.

A rule looks at the summary of a public entry point (everything it calls is inlined by the interpreter) and
derives obligations.  Every obligation is PROVED, VIOLATED or UNDECIDED.  Only a violated obligation is an
alarm: it needs a summary whose vocabulary the rule understands completely and a path that is feasible."""
import os
import re
import sys
import time
import traceback

import dump as D
from interp import Interp, Program, Loop, LoopEv, LockEv, SpawnEv, Ev, Out, unlist, Unsupported, TooBig
from term import *

KINDS = ("ok", "bad", "und")


class Undecided(Exception):
    pass


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.ob = []          # (kind, rule, where, detail, span)
        self.fns = set()
        self.blocks = set()
        self.paths = 0
        self.sites = 0
        self.loops = set()
        self.notes = []
        self.taint = 0

    def under(self, lits, allow=lambda x: False):
        """obligations of a path: a path with conditions the rule does not understand is never an alarm"""
        return _Under(self, any(foreign(c, allow) for c in lits))

    def ok(self, rule, where="", detail="", span=None):
        self.ob.append(("ok", rule, where, detail, span))

    def bad(self, rule, where="", detail="", span=None):
        self.ob.append(("und" if self.taint else "bad", rule, where, detail, span))

    def und(self, rule, where="", detail="", span=None):
        self.ob.append(("und", rule, where, detail, span))

    def check(self, cond, rule, where="", detail="", span=None):
        """cond: True / False / None"""
        k = "ok" if cond is True else "bad" if cond is False and not self.taint else "und"
        self.ob.append((k, rule, where, detail, span))
        return cond

    def count(self, k):
        return sum(1 for o in self.ob if o[0] == k)

    def bads(self):
        seen, r = set(), []
        for o in self.ob:
            if o[0] == "bad" and (o[1], o[2], o[3]) not in seen:
                seen.add((o[1], o[2], o[3]))
                r.append(o)
        return r


    def dump(self):
        return {"ob": self.ob, "fns": self.fns, "blocks": self.blocks, "paths": self.paths, "sites": self.sites, "loops": self.loops, "notes": self.notes}

    def merge(self, d):
        self.ob += d["ob"]
        self.fns |= d["fns"]
        self.blocks |= d["blocks"]
        self.paths += d["paths"]
        self.sites += d["sites"]
        self.loops |= d["loops"]
        self.notes += [n for n in d["notes"] if n not in self.notes]


def parallel(R, jobs, rule, limit=8):
    """jobs: [(where, fn(R))], each decided in its own process"""
    import pickle
    if os.environ.get("VERIF_SERIAL") or len(jobs) == 1:
        for w, fn in jobs:
            with guard(R, rule, w):
                fn(R)
        return
    todo, run = list(jobs), {}
    done = {}
    sys.stdout.flush()
    while todo or run:
        while todo and len(run) < limit:
            w, fn = todo.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    r = Report(R.prop)
                    with guard(r, rule, w):
                        fn(r)
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(r.dump(), f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            run[pid] = (w, rd, len(done) + len(run))
        # collect the oldest first
        pid = next(iter(run))
        w, rd, _ = run.pop(pid)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            done[w] = pickle.loads(data)
        except Exception as e:
            done[w] = None
    for w, _ in jobs:
        if done.get(w) is None:
            R.und(rule, w, "the analysis of this part ended without an answer")
        else:
            R.merge(done[w])


class _Under:
    def __init__(self, R, t):
        self.R, self.t = R, int(t)

    def __enter__(self):
        self.R.taint += self.t

    def __exit__(self, *a):
        self.R.taint -= self.t
        return False


class guard:
    """with guard(R, rule, where): anything the rule cannot understand is undecided"""

    def __init__(self, R, rule, where=""):
        self.R, self.rule, self.where = R, rule, where

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError, D.BuildError)):
            return False
        d = str(ev) if issubclass(et, (Undecided, Unsupported, TooBig)) else "%s: %s" % (et.__name__, ev)
        if os.environ.get("VERIF_DEBUG") and not issubclass(et, Undecided):
            traceback.print_exception(et, ev, tb)
        self.R.und(self.rule, self.where, d)
        return True


class Ctx:
    """the dumped programs"""

    def __init__(self):
        t = time.time()
        self.dumps, self.key = D.main_dump()
        self.mdump, _ = D.models_dump()
        self.models = Program(self.mdump["off"]["vmodels.json"])
        self._p = {}
        self.cache = {}
        self.t_build = time.time() - t

    def prog(self, cfg="on"):
        p = self._p.get(cfg)
        if p is None:
            p = self._p[cfg] = Program(*[self.dumps[cfg][k] for k in sorted(self.dumps[cfg], key=lambda k: "-bin" in k)])
        return p

    def find(self, pat, cfg="on", krate="mbqc_scheduling", many=False, closures=False):
        """bodies whose key matches the pattern"""
        r = []
        for k, b in self.prog(cfg).bodies.items():
            if b["krate"] != krate or (not closures and "{closure" in k):
                continue
            if re.search(pat, k):
                r.append(b)
        if many:
            return r
        if not r:
            raise Undecided("no function matches %s" % pat)
        if len(r) > 1:
            # re-exported paths name the same function
            paths = {(b["path"], b["locals"][0]["ty"]) for b in r}
            r.sort(key=lambda b: (len(b["key"]), b["key"]))
        return r[0]

    def interp(self, cfg="on", **kw):
        return Interp(self.prog(cfg), self.models, **kw)


def usage(R, I, outs=()):
    """account for what was analysed"""
    for key, bb in I.visited:
        R.fns.add(key)
        R.blocks.add((key, bb))
    R.sites += I.sites
    R.paths += len(outs)
    seen = set()

    def walk(evs):
        for e in evs:
            if isinstance(e, LoopEv) and id(e.loop) not in seen:
                seen.add(id(e.loop))
                R.loops.add(e.loop.lid)
                R.paths += len(e.loop.paths)
                for p in e.loop.paths:
                    walk(p.events)
            elif isinstance(e, SpawnEv):
                R.paths += len(e.paths)
                for k, s, _ in e.paths:
                    walk(unlist(s.trace))
    for o in outs:
        walk(o.events)


def summarise(R, ctx, body, cfg="on", names=None, args=None, st=None, opaque=(), summaries=(), max_states=60000):
    I = ctx.interp(cfg, opaque=opaque, summaries=summaries, max_states=max_states)
    outs = I.run_fn(body, names=names) if args is None else I.run_fn(body, args=args, st=st)
    usage(R, I, outs)
    for o in outs:
        o.I = I
    return I, outs


def loc(span):
    if not span:
        return ""
    if isinstance(span, str):
        return span
    try:
        return "%s:%s" % (span[0], span[1])
    except Exception:
        return str(span)


# ------------------------------------------------------------------ vocabulary
OPAQUE_OPS = {"unk", "uninit", "op", "const", "bin", "un", "cast", "absurd"}


def foreign(t, allow=lambda x: False):
    """subterms a rule does not understand"""
    r = []
    for x in subterms(t):
        if allow(x):
            continue
        if x.op in OPAQUE_OPS or x.op in ("ret", "after") and x.a[0] in UNKNOWN_CIDS:
            r.append(x)
    return r


def cells(t, ops):
    return [x for x in subterms(t) if x.op in ops]


def loops_in(t):
    """loop ids a term depends on"""
    return {x.a[0] for x in subterms(t) if x.op in ("phi", "k")}


def loopevs(events, deep=True):
    r = []
    for e in events:
        if isinstance(e, LoopEv):
            r.append(e)
    return r


def all_loops(outs):
    """every loop of a summary once, outermost first: (Loop, parent Loop or None)"""
    seen, r = {}, []

    def walk(evs, parent):
        for e in evs:
            if isinstance(e, LoopEv):
                if (e.loop.lid, id(e.loop)) in seen:
                    continue
                seen[(e.loop.lid, id(e.loop))] = 1
                r.append((e.loop, parent))
                for p in e.loop.paths:
                    walk(p.events, e.loop)
            elif isinstance(e, SpawnEv):
                for k, s, _ in e.paths:
                    walk(unlist(s.trace), parent)
    for o in outs:
        walk(o.events, None)
    return r


def K(L):
    return mk("k", L.lid)


def backs(L):
    return [p for p in L.paths if p.kind == "back"]


def mentions(t, L):
    return contains(t, lambda x: x.op in ("k", "phi") and x.a[0] == L.lid)


def feasible(f):
    return f is not None and not f.infeasible()


# ------------------------------------------------------------------ iteration spaces
def space(L):
    """iteration space of a counted loop: number of iterations n when it runs to completion, and the completing
    exits; (None, []) when the loop is not of that form"""
    k = K(L)
    n, comp = None, []
    for p in L.paths:
        if p.kind == "back":
            continue
        for c in p.lits:
            m = None
            if c.op == "lt0":
                cc, d = aff(c.a[0])
                if d.get(k) == -1:
                    m = add(add(c.a[0], k), num(1))
            elif c.op == "eq0":
                cc, d = aff(c.a[0])
                if d.get(k) in (1, -1):
                    m = add(scale(c.a[0], -d[k]), k)
            if m is None or mentions(m, L):
                continue
            if not all(b.facts.decide(lt(k, m)) is True or b.facts.decide(eq(k, m)) is False for b in backs(L)):
                continue
            if n is None or n is m:
                n = m
                comp.append(p)
                break
    return n, comp


def elem_index(L, idx, n):
    """True when idx runs over 0..n exactly once: idx = k or idx = n - 1 - k"""
    k = K(L)
    if idx is k or idx is sub(sub(n, num(1)), k):
        return True
    return False


def covers(facts, L, idx, n, ln):
    """does idx take every value of 0..ln exactly once in the n iterations of L?  True / False / None"""
    k = K(L)
    c, d = aff(idx)
    if d.get(k) not in (1, -1):
        return None
    lo = sub(idx, scale(k, d[k]))
    if mentions(lo, L) or foreign(lo) or foreign(n):
        return None
    if d[k] == -1:
        lo = sub(lo, sub(n, num(1)))
    if compare(facts, lo, num(0)) and compare(facts, n, ln):
        return True
    return False


# ------------------------------------------------------------------ values along a path
def peel(v, bases, ops=("upd",)):
    """undo functional updates: [(op, args...)] from the innermost to the outermost, and the base"""
    r = []
    while v not in bases and v.op in ops:
        r.append((v.op,) + v.a[1:])
        v = v.a[0]
    r.reverse()
    return v, r


def refine(facts, alts):
    """[(name, facts)] for the alternatives that are possible; alts: {name: condition}"""
    r = []
    for nme, c in alts.items():
        f = facts.assume(c)
        if feasible(f):
            r.append((nme, f))
    return r


PURE_OPS = {"max", "min", "div", "mul", "add", "sub", "rem", "saturating_add", "saturating_sub", "saturating_mul", "mul_f64", "mul_f32", "div_f64", "div_f32",
            "as_secs", "as_millis", "as_micros", "as_nanos", "subsec_nanos", "from_millis", "from_secs", "from_secs_f64", "from_micros", "from_nanos", "pow", "rotate_left", "rotate_right", "swap_bytes", "reverse_bits", "count_ones"}


def known_fn(x):
    """application of a function the rules know, to something else"""
    return x.op in ("bin", "un") or x.op == "op" and str(x.a[0] if isinstance(x.a[0], str) else x.a[0].a[0]) in PURE_OPS


def compare(facts, actual, expected, allow=lambda x: False, fns=False):
    """True / False / None"""
    if facts.eqv(actual, expected):
        return True
    if fns and known_fn(facts.simp(actual)):
        al0 = allow
        allow = lambda x: al0(x) or known_fn(x) or x.op == "const"
    a = facts.simp(actual)
    e = facts.simp(expected)
    if fns and truncated(facts, a, e):
        return False
    if foreign(a, allow) and not foreign(e, allow):
        return None
    return False


def truncated(facts, a, e):
    """is a the lower bits of e, which may have more?"""
    if a.op != "cast" or not facts.eqv(a.a[1], e):
        return False
    m = re.match(r"([iu])(\d+)$", a.a[0])
    if not m:
        return False
    bits = int(m.group(2)) - (m.group(1) == "i")
    return WIDTH.get(a.a[1], 0) > bits and not foreign(e) and feasible(facts.assume(le(num(2 ** bits), e)))


def decide(facts, c):
    return facts.decide(facts.simp(c))


def strict(facts, lits, c, own=()):
    """decide c; when it is neither implied nor refuted, and it only relates plain quantities (no loop results but
    those in own), all of whose conditions on the path are understood, then the path is possible with c being false"""
    c = facts.simp(c)
    d = facts.decide(c)
    if d is not None:
        return d
    if not feasible(facts.assume(neg(c))):
        return True

    done = set(own)
    for l in lits:
        # counters of completed loops
        if l.op == "eq0":
            ks = {x for x in subterms(l) if x.op in ("phi", "k") and x not in own}
            if len(ks) == 1 and list(ks)[0].op == "k":
                done |= ks

    def plain(t):
        for x in subterms(t):
            if x.op in ("phi", "k") and x not in done:
                return False
        return not foreign(t)
    if not plain(c):
        return None
    mine = atoms(c)
    todo, used = list(lits), True
    while used:
        used = False
        for l in list(todo):
            a = atoms(l)
            if a & mine:
                if not plain(l):
                    return None
                todo.remove(l)
                mine |= a
                used = True
    return False


def atoms(t):
    """the quantities a condition talks about"""
    r = set()

    def go(x):
        if x.op in ("num", "bool"):
            return
        if x.op in ("sym", "phi", "ret", "after", "fld", "sel", "len", "hlen", "hget", "has", "k"):
            r.add(x)
            if x.op in ("len", "hlen", "has", "hget"):
                r.add(x.a[0])
            return
        for y in x.a:
            if hasattr(y, "op"):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    if hasattr(z, "op"):
                        go(z)
                    elif isinstance(z, tuple):
                        for w in z:
                            if hasattr(w, "op"):
                                go(w)
    go(t)
    return r


# ------------------------------------------------------------------ accessors of private fields
def find_adt(ctx, name, cfg="on"):
    r = [i for i in ctx.prog(cfg).items if i["k"] == "adt" and i["p"].split("::")[-1] == name and i["p"].startswith("mbqc_scheduling")]
    if not r:
        raise Undecided("no type %s" % name)
    return r[0]


def accessor(ctx, adt, meth, cfg="on"):
    """the value a public accessor reads, as a function of the receiver: list of field names, or raises Undecided"""
    key = ("acc", adt, meth, cfg)
    if key in ctx.cache:
        r = ctx.cache[key]
        if isinstance(r, Exception):
            raise r
        return r
    try:
        b = ctx.find(r"\b%s::<[^()]*>::%s$|\b%s::%s$" % (adt, meth, adt, meth), cfg)
        I = ctx.interp(cfg)
        outs = I.run_fn(b, names=["self"])
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Undecided("accessor %s::%s is not a field" % (adt, meth))
        t, path = outs[0].ret, []
        while t.op == "fld":
            path.append(t.a[1])
            t = t.a[0]
        if t.op != "sym" or t.a[0] != "self":
            raise Undecided("accessor %s::%s is not a field" % (adt, meth))
        r = tuple(reversed(path))
    except (Undecided, Unsupported, TooBig) as e:
        ctx.cache[key] = e if isinstance(e, Undecided) else Undecided(str(e))
        raise ctx.cache[key]
    ctx.cache[key] = r
    return r


def getp(t, path):
    for p in path:
        t = fld(t, p)
    return t


def short(t, d=5):
    s = show(t, d)
    return s if len(s) < 160 else s[:157] + "..."

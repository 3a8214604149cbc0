"""C25: the benchmark generator makes well-formed instances and files numbers apart.

The benchmark crate is compiled against declarations of the pinned commit of the crate (stubs/pinned) and its MIR is summarised:
which pairs of nodes the generator considers and what it enters for them, what the statistics are computed from, and under
which index they are filed."""
import dump as D
import math
from rulelib import *
from rules_run import walk

UNIFORM = ("op(uniform.new, 0.0, 1.0)",)


class ResCtx(Ctx):
    def __init__(self, main):
        self.dumps, self.key = D.results_dump()
        self.mdump, self.models = main.mdump, main.models
        self._p, self.cache = {}, {}

    def get(self, pat, cfg="off", generic=False):
        r = [b for b in self.prog(cfg).bodies.values() if b["krate"] == "results" and "{closure" not in b["key"] and re.search(pat, re.sub(r"(::<[^<>]*(<[^<>]*>[^<>]*)*>)$", "", b["key"]))]
        g = [b for b in r if "impl " in b["key"]]
        r = g if generic and g else r
        if not r:
            raise Undecided("no function %s" % pat)
        return sorted(r, key=lambda b: len(b["key"]))[0]


def c25(R, ctx):
    try:
        P = ResCtx(ctx)
    except D.BuildError as e:
        R.und("C25/builds", "results", "the benchmark does not compile against the declarations of the pinned commit: %s" %
              " ".join((re.search(r"error.*", str(e)) or [str(e)[-200:]])[0].split()))
        return
    for cfg, rel in (("on", "debug"), ("off", "release")):
        for name, fn in (("C25/graph", graph), ("C25/order", order), ("C25/density", density), ("C25/slots", slots), ("C25/average", average), ("C25/sweep", sweep)):
            with guard(R, name, "%s (%s)" % (name.split("/")[1], rel)):
                fn(R, P, cfg, rel, name)


def sy(n):
    return mk("sym", n)


def names_of(b):
    return [l.get("n") or "a%d" % (i + 1) for i, l in enumerate(b["locals"][1:b["argc"] + 1])]


# ------------------------------------------------------------------ integer conditions at given sizes
class NoValue(Exception):
    pass


def val(t, env):
    c, d = aff(t)
    r = c
    for x, k in d.items():
        if x not in env:
            raise NoValue(show(x))
        r += k * env[x]
    return r


def holds(l, env):
    if l.op == "not":
        return not holds(l.a[0], env)
    if l.op == "lt0":
        return val(l.a[0], env) < 0
    if l.op == "eq0":
        return val(l.a[0], env) == 0
    if l.op == "bool":
        return l.a[0]
    if l.op in ("and", "or"):
        xs = [holds(x, env) for x in (l.a[0] if isinstance(l.a[0], tuple) else l.a)]
        return all(xs) if l.op == "and" else any(xs)
    raise NoValue(show(l))


def fval(t, env):
    """value of a float expression"""
    if t in env:
        return env[t]
    if t.op in ("const", "float", "fnum"):
        return float(str(t.a[-1]).replace("_f64", "").replace("f64", ""))
    if t.op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = fval(t.a[0], env), fval(t.a[1], env)
        if t.op == "fdiv" and b == 0:
            raise NoValue("division by zero")
        return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[t.op]()
    if t.op == "sqrt":
        return math.sqrt(fval(t.a[0], env))
    if t.op == "i2f":
        return float(val(t.a[0], env))
    if t.op in ("powi", "powf"):
        return fval(t.a[0], env) ** (val(t.a[1], env) if t.op == "powi" else fval(t.a[1], env))
    if t.op == "num":
        return float(intval(t))
    m = re.match(r"^-?\d+(\.\d+)?(e-?\d+)?$", show(t))
    if m:
        return float(m.group(0))
    raise NoValue(show(t))


# ------------------------------------------------------------------ random decisions
def chance(lits, evs, dens):
    """the random decision a path takes: (True | False: whether the draw fell below the density, verdict), or None when
    nothing is drawn; the verdict says whether the chance is the density"""
    ds = [e for e in evs if isinstance(e, Ev) and e.name == "draw"]
    if not ds:
        return None
    if len(ds) > 1:
        raise Undecided("several draws for one decision")
    d = ds[0]
    what, of = show(d.args[0]).strip("'"), show(d.args[1]).strip("'")
    for l in lits:
        pos, x = (False, l.a[0]) if l.op == "not" else (True, l)
        if not contains(x, lambda y: y is d.ret):
            continue
        if what == "gen_bool":
            if x is d.ret:
                return pos, True if d.args[2] is dens else None if foreign(d.args[2], lambda y: y is dens) else False
            raise Undecided("what is drawn")
        if what == "sample":
            u = d.args[2] if len(d.args) > 2 else None
            if u is None or not show(u).startswith("op(uniform.new"):
                raise Undecided("the distribution of a draw")
            unit = show(u) in UNIFORM
        elif what in ("gen", "random") and "f64" in of:
            unit = True
        elif what == "gen_range":
            unit = None
        else:
            raise Undecided("what is drawn")
        if x.op in ("flt", "fle", "fgt", "fge") and len(x.a) == 2:
            a, b = x.a if x.op in ("flt", "fle") else (x.a[1], x.a[0])
            if a is d.ret:
                return pos, unit and (True if b is dens else None if foreign(b, lambda y: y is dens) else False)
            if b is d.ret:
                # density < draw
                return not pos, unit and (True if a is dens else None if foreign(a, lambda y: y is dens) else False)
        raise Undecided("how a draw is compared")
    raise Undecided("a draw that nothing depends on")


def density_value(outs, names, size):
    """the density a generator uses: the result of asking its parameter for the size"""
    r = set()
    for o in outs:
        for e in walk(o.events):
            if isinstance(e, Ev) and e.name.endswith("Density::get"):
                a = list(e.pre or e.args)
                r.add((e.ret, a[0] if a else None, a[1] if len(a) > 1 else None, loc(e.span)))
    return r


def param_size(b):
    r = [l.get("n") or "a%d" % (i + 1) for i, l in enumerate(b["locals"][1:b["argc"] + 1]) if l["ty"] == "usize"]
    if len(r) != 1:
        raise Undecided("which parameter is the size")
    return sy(r[0])


# ------------------------------------------------------------------ graphs
def graph(R, P, cfg, rel, rule):
    b = P.get(r"::get_graph$", cfg, generic=True)
    w = "get_graph (%s)" % rel
    ns = names_of(b)
    n = param_size(b)
    I, outs = summarise(R, P, b, cfg, names=ns)
    dv = density_value(outs, ns, n)
    if len({x[0] for x in dv}) != 1:
        raise Undecided("the density of the edges")
    dens, _, of, sp = list(dv)[0]
    R.check(True if of is n else None if foreign(of) else False, rule, w, "the density for this number of nodes is used", sp)
    seen = set()
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        f = o.facts
        v = f.simp(o.ret)
        if v.op != "phi":
            # without a loop: no nodes, or no edges and as many rows as nodes
            l = length(v)
            R.check(True if f.eqv(l, n) else None if foreign(l) else strict(f, o.lits, eq(l, n)), rule, w, "a graph has as many rows as nodes", b.get("span"))
            if v.op in ("fill", "vec0") and not foreign(v):
                R.check(strict(f, o.lits, lt(n, num(2)), own=[K(e.loop) for e in walk_loops(o.events)]), rule, w, "a graph has edges when there are nodes to join", b.get("span"))
            continue
        le_ = next((e for e in walk_loops(o.events) if v.a[0] == e.loop.lid), None)
        if le_ is None or id(le_.loop) in seen:
            continue
        L1 = le_.loop
        seen.add(id(L1))
        init = L1.entry.get(v)
        ok = True if init is not None and init.op == "fill" and init.a[0] is mk("vec0") and f.eqv(init.a[1], n) else None
        if ok is None and init is not None and f.eqv(length(init), n) and init.op == "gen":
            ok = True
        if ok is None and init is not None and not foreign(init) and init.op == "fill":
            ok = False
        R.check(ok, rule, w, "a graph starts with an empty row for every node; it starts with %s" % short(init), L1.span)
        pairs(R, rule, w, L1, v, n, dens)


def walk_loops(evs):
    for e in evs:
        if isinstance(e, LoopEv):
            yield e


def pairs(R, rule, w, L1, v, n, dens):
    inner = {}
    for p in backs(L1):
        for e in walk_loops(p.events):
            inner[id(e.loop)] = e.loop
        if not list(walk_loops(p.events)):
            raise Undecided("pairs that are not considered in two nested loops")
    if len(inner) != 1:
        raise Undecided("the loops over the pairs")
    L2 = list(inner.values())[0]
    vs = [x for x, y in L2.entry.items() if y is v]
    if len(vs) != 1:
        raise Undecided("the graph in the inner loop")
    v2 = vs[0]
    for p in backs(L1):
        if p.upd.get(v) is not v2:
            raise Undecided("the graph after the inner loop")
    n1, n2 = space(L1)[0], space(L2)[0]
    if n1 is None or n2 is None:
        raise Undecided("the ranges of the loops over the pairs")
    k1, k2 = K(L1), K(L2)
    cases = []
    for p in backs(L2):
        base, us = peel(p.upd.get(v2), [v2])
        if base is not v2:
            raise Undecided("how edges are entered")
        ent = []
        for u in us:
            row, x = u[1], u[2]
            if x.op != "push":
                raise Undecided("how an edge is entered: %s" % short(x))
            ent.append((row, x.a[1], row_of(x.a[0], v2)))
        ints, dec = [], None
        for l in p.lits:
            if contains(l, lambda y: y.op == "len" and contains(y, lambda z: z in (v, v2))) or contains(l, lambda y: y in (v, v2)):
                continue
            if contains(l, lambda y: y.op == "ret"):
                continue
            ints.append(l)
        dec = chance(p.lits, p.events, dens)
        span = next((e.span for e in p.events if isinstance(e, Ev) and e.name == "draw"), L2.span)
        if dec is not None:
            R.check(dec[1], rule, w, "an edge is drawn with the given density", span)
            if not dec[0]:
                R.check(not ent, rule, w, "no edge is entered when the draw is not below the density", span)
                continue
            R.check(bool(ent) or None, rule, w, "an edge is entered when the draw is below the density", span)
        elif ent:
            R.bad(rule, w, "every edge is drawn", span)
        cases.append((ints, ent, dec, span))
    for ints, ent, dec, span in cases:
        for row, x, own in ent:
            R.check(None if own is None else own is row, rule, w, "an edge is added to the row of its node", span)
    # which pairs: the affine index expressions, at all small numbers of nodes
    bad = None
    try:
        for m in range(0, 9):
            cnt = {}
            for i in range(max(0, val(n1, {n: m}))):
                e1 = {n: m, k1: i}
                for j in range(max(0, val(n2, e1))):
                    env = {n: m, k1: i, k2: j}
                    hit = [(ent, dec) for ints, ent, dec, _ in cases if all(holds(l, env) for l in ints)]
                    if not hit:
                        continue
                    if len(hit) > 1:
                        raise NoValue("overlapping paths")
                    got = sorted((val(r, env), val(x, env)) for r, x, _ in hit[0][0])
                    if hit[0][1] is None and not got:
                        continue
                    for a, c in got:
                        if a == c and bad is None:
                            bad = "node %d gets an edge to itself (%d nodes)" % (a, m)
                        if not (0 <= a < m and 0 <= c < m) and bad is None:
                            bad = "an edge (%d, %d) outside of the graph (%d nodes)" % (a, c, m)
                        cnt[(a, c)] = cnt.get((a, c), 0) + 1
                    if sorted((c, a) for a, c in got) != got and bad is None:
                        bad = "only one end of the edge is entered: %s (%d nodes)" % (got, m)
            for a in range(m):
                for c in range(m):
                    if a != c and cnt.get((a, c), 0) != 1 and bad is None:
                        bad = "the pair (%d, %d) is considered %d times (%d nodes)" % (a, c, cnt.get((a, c), 0), m)
    except NoValue as x:
        raise Undecided("the pairs that are considered: %s" % x)
    R.check(bad is None, rule, w, "every pair of nodes is considered once, and entered at both ends" + ("; " + bad if bad else ""), L2.span)


def row_of(t, base):
    """the index of the row that t extends"""
    while t.op == "sel":
        x, _ = peel(t.a[0], [base])
        if x is base:
            return t.a[1]
        return None
    return None


# ------------------------------------------------------------------ orderings
def order(R, P, cfg, rel, rule):
    b = P.get(r"plots::get_order$", cfg, generic=True)
    w = "get_order (%s)" % rel
    ns = names_of(b)
    n = param_size(b)
    I, outs = summarise(R, P, b, cfg, names=ns)
    dv = density_value(outs, ns, n)
    if len({x[0] for x in dv}) != 1:
        raise Undecided("the density of the corrections")
    dens, _, of, sp = list(dv)[0]
    R.check(True if of is n else None if foreign(of) else False, rule, w, "the density for this number of nodes is used", sp)
    done = False
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        if not any(isinstance(e, Ev) and e.name.endswith("induced_order::get_order") for e in o.events):
            l = length(o.facts.simp(o.ret))
            R.check(strict(o.facts, o.lits, eq(n, num(0))), rule, w, "only without nodes there is no ordering", b.get("span"))
            continue
        if done:
            continue
        done = True
        call = next(e for e in o.events if isinstance(e, Ev) and e.name.endswith("induced_order::get_order"))
        mp = (call.pre or call.args)[1]
        if mp.op != "phi":
            raise Undecided("the order of the measurements")
        L = next((e.loop for e in walk_loops(o.events) if e.loop.lid == mp.a[0]), None)
        if L is None or L.entry.get(mp) is not mk("vec0"):
            raise Undecided("the order of the measurements")
        for p in backs(L):
            u = p.upd.get(mp)
            if u is None or u.op != "push" or u.a[0] is not mp:
                R.check(None, rule, w, "every round adds one node to the order", L.span)
                continue
            x = u.a[1]
            # the node is taken out of those left
            if x.op != "sel" or x.a[0].op != "phi" or x.a[0].a[0] != L.lid:
                raise Undecided("the node that is added to the order")
            pool, at = x.a[0], x.a[1]
            e0 = L.entry.get(pool)
            R.check(True if e0 is not None and e0.op == "gen" and p.facts.eqv(e0.a[0], n) and show(e0.a[1]) == "bv(0)" else None, rule, w, "the nodes are ordered starting from all of them", L.span)
            left = p.upd.get(pool)
            if left is pool:
                R.bad(rule, w, "a node is ordered once: it is taken out of those left", L.span)
                continue
            if left is None or left.op not in ("swaprem", "remove", "del") or left.a[0] is not pool:
                raise Undecided("the nodes that are left: %s" % short(left))
            R.check(True if left.a[1] is at else None if foreign(left.a[1]) else False, rule, w, "the node that is added is the one that is taken out", L.span)
            corrections(R, rule, w, p, L, mp, pool, left, dens)
        fr = next(((e.pre or e.args)[0] for e in o.events if isinstance(e, Ev) and e.ret is (call.pre or call.args)[0]), None)
        z = next((e.ret for e in o.events if isinstance(e, Ev) and e.name.endswith("PauliStack::<T>::zeros")), None)
        if fr is not None and z is not None and fr.op == "fill" and fr.a[0] is z:
            R.bad(rule, w, "the drawn corrections are entered; the frames stay %s" % short(fr), call.span)
        for p in L.paths:
            if p.kind == "exit":
                R.check(pool_done(p, L), rule, w, "nodes are ordered until none is left", L.span)
    if not done:
        raise Undecided("where the ordering is made")


def pool_done(p, L):
    for x in L.entry:
        for e in (x,):
            if any(contains(l, lambda y: y is e) for l in p.lits) and decide(p.facts, eq(length(e), num(0))) is True:
                return True
    return None


def corrections(R, rule, w, p, L, mp, pool, left, dens):
    """which nodes get a correction from the node that is taken out, and in which row it is noted"""
    evs = list(walk(p.events))
    sets = [e for e in evs if isinstance(e, Ev) and re.search(r"BitSlice.*::set$|BitVec.*::set$", e.name)]
    gets = [e for e in evs if isinstance(e, Ev) and e.name.endswith("Base::get_mut")]
    for e in sets:
        a = list(e.pre or e.args)
        R.check(True if p.facts.eqv(a[1], length(mp)) else None if foreign(a[1]) else False, rule, w, "a correction is noted at the position of its node in the order", e.span)
        if a[2].op == "bool":
            R.check(bool(a[2].a[0]), rule, w, "a correction is noted", e.span)
    for e in gets:
        x = (e.pre or e.args)[1]
        src = source(x, p)
        if src is None:
            R.und(rule, w, "the nodes that get a correction: %s" % short(x), e.span)
            continue
        # taken from those left after the node itself is out
        base = src[0]
        R.check(True if base is left else False if base is pool else None, rule, w, "corrections go to nodes that come later in the order, not to the node itself", e.span)
        for q, lp in src[1]:
            dec = chance(q.lits, q.events, dens)
            if dec is None:
                R.und(rule, w, "a correction without a draw", e.span)
                continue
            grows = any(u.op == "push" for u in q.upd.values())
            R.check(dec[1], rule, w, "a correction is drawn with the given density", e.span)
            R.check(grows == dec[0], rule, w, "a correction is entered when the draw is below the density", e.span)


def source(x, p):
    """the list the elements of a filtered list are taken from: (list, [(path, loop)])"""
    if x.op != "sel":
        return None
    v = x.a[0]
    if v.op != "phi":
        return None
    L = next((e.loop for e in walk_loops(p.events) if e.loop.lid == v.a[0]), None)
    if L is None:
        return None
    base, ps = None, []
    for q in backs(L):
        ps.append((q, L))
        u = q.upd.get(v)
        if u is None or u is v:
            continue
        if u.op != "push" or u.a[0] is not v or u.a[1].op != "sel" or u.a[1].a[1] is not K(L):
            return None
        if base is not None and base is not u.a[1].a[0]:
            return None
        base = u.a[1].a[0]
    return (base, ps) if base is not None else None


# ------------------------------------------------------------------ densities
def density(R, P, cfg, rel, rule):
    """constant, reciprocal in the degree, reciprocal in the root of it"""
    want = {"ConstantDensity": lambda k, n: k, "ReziprocalLinearDensity": lambda k, n: k / (n - 1), "ReziprocalSquareRootDensity": lambda k, n: k / math.sqrt(n - 1)}
    for t, fn in sorted(want.items()):
        w = "%s (%s)" % (t, rel)
        with guard(R, rule, w):
            b = P.get(r"%s as .*Density>::get$|%s>::get$" % (t, t), cfg)
            I, outs = summarise(R, P, b, cfg, names=["self", "size"])
            k, n = fld(sy("self"), "factor"), sy("size")
            for o in outs:
                if o.kind != "ret" or not feasible(o.facts):
                    continue
                bad, cmp_ = None, 0
                for m in list(range(2, 40)) + [1000]:
                    for x in (0.0, 0.25, 0.5, 1.0):
                        env = {n: m, k: x}
                        try:
                            if not all(holds(l, env) for l in o.lits):
                                continue
                            y = fval(o.ret, env)
                        except NoValue as e:
                            raise Undecided("a density: %s" % e)
                        cmp_ += 1
                        if abs(y - fn(x, m)) > 1e-9 and bad is None:
                            bad = "%g for %d nodes and factor %g" % (y, m, x)
                if not cmp_:
                    continue
                R.check(bad is None, rule, w, "the density is the factor, scaled as its name says" + ("; it is " + bad if bad else ""), b.get("span"))
    w = "DensityEnum (%s)" % rel
    with guard(R, rule, w):
        b = P.get(r"DensityEnum::new$", cfg)
        ns = names_of(b)
        I, outs = summarise(R, P, b, cfg, names=ns)
        kind = {"constant": "Constant", "reziprocal_linear": "ReziprocalLinear", "reziprocal_square_root": "ReziprocalSquareRoot"}
        seen = set()
        for o in outs:
            if o.kind != "ret" or not feasible(o.facts):
                continue
            word = [x.a[0] for l in o.lits if l.op == "eqv" or l.op == "eq" for x in l.a if hasattr(x, "op") and x.op == "str"]
            word = word or [m.group(1) for l in o.lits for m in [re.match(r"^eq\((?:\w+, )?'(\w+)'(?:, \w+)?\)$", show(l))] if m]
            if len(word) != 1 or word[0] not in kind:
                R.und(rule, w, "for which name a density is made")
                continue
            seen.add(word[0])
            v = o.ret
            if v.op != "agg":
                R.und(rule, w, "the density for a name")
                continue
            R.check(v.a[1] == kind[word[0]], rule, w, "%s makes the density of this name; it makes %s" % (word[0], v.a[1]), b.get("span"))
            fac = fld(fld(v, kind[word[0]] + ".0"), "factor") if v.a[1] == kind[word[0]] else None
            if fac is not None:
                other = [sy(x) for x in ns if not re.search("str", "") or True]
                R.check(True if fac in other else None if foreign(fac) else False, rule, w, "the factor is the given one; it is %s" % short(fac), b.get("span"))


# ------------------------------------------------------------------ statistics
def doit(R, P, cfg):
    b = P.get(r"plots::do_it$", cfg, generic=True)
    ns = names_of(b)
    I, outs = summarise(R, P, b, cfg, names=ns, opaque=[r"plots::get_graph(::<|$)", r"plots::get_order(::<|$)", r"plots::Times::average$"])
    return b, ns, outs


def slot(t, i, base):
    """the element at i after functional updates; None when it cannot be told"""
    while t is not base:
        if t.op != "upd":
            return None
        j = intval(t.a[1])
        if j is None:
            return None
        if j == i:
            return t.a[2]
        t = t.a[0]
    return sel(base, num(i))


def slots(R, P, cfg, rel, rule):
    b, ns, outs = doit(R, P, cfg)
    w = "do_it (%s)" % rel
    seen = set()
    tys = {l.get("n") or "a%d" % (i + 1): l["ty"] for i, l in enumerate(b["locals"][1:b["argc"] + 1])}
    flag = [x for x in ns if tys[x] == "bool"]
    if len(flag) != 1:
        raise Undecided("which parameter asks for the exact search")
    flag = sy(flag[0])
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        full = o.facts.decide(flag)
        if full is None:
            raise Undecided("whether the exact search is asked for")
        ret, times = fld(o.ret, "0"), fld(o.ret, "1")
        stat = statistics(R, rule, w, o, ret)
        if stat is None:
            continue
        rv, mv = stat
        lid = rv.a[0]
        L = next((e.loop for e in walk_loops(o.events) if e.loop.lid == lid), None)
        if L is None:
            raise Undecided("where the results are collected")
        n = 8 if full else 4
        for v, z in ((rv, "vec0()"), (mv, "0.0")):
            if v is None:
                continue
            e0 = L.entry.get(v)
            ok = None
            if e0 is not None and e0.op == "fill":
                ok = True if show(e0.a[0]) == z and intval(e0.a[1]) == n else None if foreign(e0) else False
            R.check(ok, rule, w, "%s empty slots to start with; they are %s" % (n, short(e0)), L.span)
        if (id(L), full) in seen:
            continue
        seen.add((id(L), full))
        size = [sy(x) for x in ns if tys[x] == "usize"]
        for p in backs(L):
            if not feasible(p.facts):
                continue
            one_round(R, rule, w, p, L, rv, mv, n, full, ns, tys)
        walls(R, rule, w, o, L, times, full)


def statistics(R, rule, w, o, ret):
    """mean and deviation are over the results that exist; returns the collected results and sums"""
    if ret.op != "phi":
        raise Undecided("how the statistics are collected")
    L = next((e.loop for e in walk_loops(o.events) if e.loop.lid == ret.a[0]), None)
    if L is None:
        raise Undecided("how the statistics are collected")
    found = None
    k = K(L)
    for p in backs(L):
        v = p.upd.get(ret)
        if v is not None and v.op == "upd" and v.a[0] is ret:
            i, x = v.a[1], v.a[2]
        elif v is not None and v.op == "push" and v.a[0] is ret:
            i, x = k, v.a[1]
        else:
            raise Undecided("how the statistics are collected: %s" % short(v))
        R.check(True if i is k else None if foreign(i) else False, rule, w, "statistics are filed under the slot of their results", L.span)
        mean, dev = fld(x, "0"), fld(x, "1")
        if mean.op != "fdiv":
            if mean.op == "sqrt":
                R.bad(rule, w, "the mean comes first, the deviation second", L.span)
                continue
            if mean.op == "sel" and mean.a[1] is k and not foreign(mean) or total(p, mean, lambda y, j: True):
                R.bad(rule, w, "the mean is the sum over the number of results; it is %s" % short(mean), L.span)
                continue
            raise Undecided("the mean: %s" % short(mean))
        lens = [y for y in subterms(x) if y.op == "len" and y.a[0].op == "sel" and y.a[0].a[1] is k]
        rs = {y.a[0].a[0] for y in lens}
        if len(rs) != 1:
            raise Undecided("the results a mean is computed from")
        rv = list(rs)[0]
        res = sel(rv, k)
        cnt = mk("i2f", mk("len", res))
        R.check(True if mean.a[1] is cnt else None if foreign(mean.a[1]) and mean.a[1].op != "const" else False, rule, w,
                "the mean is over the results that exist; it is divided by %s" % short(mean.a[1]), L.span)
        top, mv = mean.a[0], None
        if top.op == "sel" and top.a[1] is k:
            mv = top.a[0]
        elif total(p, top, lambda y, j: y is mk("i2f", sel(res, j))):
            pass
        elif top.op == "sel" and not foreign(top):
            R.bad(rule, w, "the mean is of the sum of the same slot", L.span)
            continue
        else:
            raise Undecided("the sum of the results: %s" % short(top))
        # deviation
        d = dev
        if d.op != "sqrt":
            R.check(None if foreign(d) else False, rule, w, "the deviation is the root of the mean square; it is %s" % short(d), L.span)
        elif d.a[0].op != "fdiv":
            R.check(None if foreign(d) else False, rule, w, "the deviation is over the results that exist; it is %s" % short(d), L.span)
        else:
            R.check(True if d.a[0].a[1] is cnt else None if foreign(d.a[0].a[1]) and d.a[0].a[1].op != "const" else False, rule, w,
                    "the deviation is over the results that exist; it is divided by %s" % short(d.a[0].a[1]), L.span)
            def square(y, j):
                diff = mk("fsub", mk("i2f", sel(res, j)), mean)
                alt = mk("fsub", mean, mk("i2f", sel(res, j)))
                if y.op in ("powi", "powf") and show(y.a[1]) in ("2", "2.0"):
                    return y.a[0] in (diff, alt)
                return y.op == "fmul" and y.a[0] in (diff, alt) and y.a[1] in (diff, alt)
            t = total(p, d.a[0].a[0], square)
            R.check(t, rule, w, "the deviation sums the squared distances to the mean", L.span)
        if found and found != (rv, mv):
            raise Undecided("several collections of results")
        found = (rv, mv)
    return found


def total(p, t, term):
    """is t the sum over all results of what term recognises?"""
    if t.op != "phi":
        return None
    L = next((e.loop for e in walk_loops(p.events) if e.loop.lid == t.a[0]), None)
    if L is None:
        return None
    if show(L.entry.get(t)) not in ("0", "0.0", "-0.0"):
        return None
    n, _ = space(L)
    if n is None or n.op != "len":
        return None
    r = True
    for q in backs(L):
        u = q.upd.get(t)
        x = other(u, t)
        if x is None:
            return None
        if not term(x, K(L)):
            r = None if foreign(x) else False
    return r


def other(u, t):
    """the summand added to t"""
    if u is None:
        return None
    if u.op in ("fadd", "add") and t in u.a[:2]:
        return u.a[1] if u.a[0] is t else u.a[0]
    if u.op == "aff" or isnum(u):
        r = sub(u, t)
        if not contains(r, lambda y: y is t):
            return r
    m = [y for y in u.a if isinstance(y, T)] if hasattr(u, "a") else []
    if len(m) == 2 and t in m:
        return m[1] if m[0] is t else m[0]
    return None


def role(e, f):
    """which search a call of the crate is: time (no search), approx (a timeout or random), exact"""
    a = list(e.pre or e.args)
    if len(a) != 7:
        raise Undecided("%d arguments of a search" % len(a))
    ds = f.decide(f.simp(a[2]))
    if ds is False:
        return "time"
    if ds is not True:
        raise Undecided("whether a call searches")
    to, pr = f.decide(isv(a[3], "Some")), f.decide(isv(a[6], "Some"))
    if to is None or pr is None:
        raise Undecided("the options of a search")
    return "approx" if to or pr else "exact"


def one_round(R, rule, w, p, L, rv, mv, n, full, ns, tys):
    f = p.facts
    runs = [e for e in p.events if isinstance(e, Ev) and e.name.endswith("interface::run")]
    if any(isinstance(e, LoopEv) for e in p.events):
        raise Undecided("a round with loops")
    by = {}
    for e in runs:
        by.setdefault(role(e, f), []).append(e)
    want = ["time", "approx"] + (["exact"] if full else [])
    for r_ in ("time", "approx", "exact"):
        k = len(by.get(r_, []))
        if k > 1:
            R.check(False if r_ == "time" or k + len(runs) > 0 and "exact" in want and "exact" not in by else None, rule, w,
                    "every round runs each search once", by[r_][1].span)
        elif r_ in want and k == 0:
            R.bad(rule, w, "every round runs the %s search" % NAMES[r_], runs[0].span if runs else L.span)
    if any(len(x) != 1 for x in by.values()) or sorted(by) != sorted(want):
        if sorted(by) != sorted(want) and all(x in by for x in want):
            R.bad(rule, w, "the exact search is run when it is asked for only", runs[-1].span)
        return
    # all searches get the instance of this round
    gs = [e for e in p.events if isinstance(e, Ev) and e.name.endswith("plots::get_graph")]
    os_ = [e for e in p.events if isinstance(e, Ev) and e.name.endswith("plots::get_order")]
    if len(gs) != 1 or len(os_) != 1:
        R.und(rule, w, "the instance of a round")
    else:
        for r_, (e,) in by.items():
            a = list(e.pre or e.args)
            for i, x, what in ((0, gs[0].ret, "graph"), (1, os_[0].ret, "ordering")):
                R.check(True if f.eqv(a[i], x) else None if foreign(a[i]) else False, rule, w, "the %s search gets the %s of the round" % (NAMES[r_], what), e.span)
    a = list(by["approx"][0].pre or by["approx"][0].args)
    durs = [sy(x) for x in ns if tys[x].endswith("Duration")]
    R.check(True if f.decide(isv(a[3], "Some")) and f.simp(fld(a[3], "Some.0")) in durs else None if foreign(a[3]) else False, rule, w,
            "the approximated search gets the timeout; it gets %s" % short(f.simp(a[3])), by["approx"][0].span)
    for r_ in ("time", "exact"):
        if r_ in by:
            a = list(by[r_][0].pre or by[r_][0].args)
            for i, what in ((3, "timeout"), (6, "accept function")):
                R.check(f.decide(isv(a[i], "None")), rule, w, "the %s search has no %s" % (NAMES[r_], what), by[r_][0].span)
    # the slots
    plan = [("time", "first"), ("approx", "last")] + ([("exact", "first"), ("exact", "last")] if full else [])
    for i in range(n):
        s_, which = plan[i // 2]
        e = by[s_][0]
        out, c = e.ret, ("time", "space")[i % 2]
        have = f.decide(lt(num(0), length(out)))
        if have is None:
            R.und(rule, w, "whether a search found something")
            continue
        v = slot(p.upd.get(rv, rv), i, rv)
        old = sel(rv, num(i))
        what = "slot %d holds the %s of the %s result of the %s search" % (i, c, which, NAMES[s_])
        x = fld(sel(out, num(0) if which == "first" else sub(length(out), num(1))), c)
        if v is None:
            R.und(rule, w, what)
        elif not have:
            R.check(True if v is old else None if foreign(v) else False, rule, w, what + ", and nothing when there is none", L.span)
        elif v is old:
            R.bad(rule, w, what + "; nothing is filed", L.span)
        elif v.op == "push" and v.a[0] is old:
            R.check(cmp_res(f, v.a[1], x), rule, w, what + "; it gets %s" % short(f.simp(v.a[1])), L.span)
        else:
            R.check(None if foreign(v) or v.op != "push" else False, rule, w, what + "; it is %s" % short(v), L.span)
        if mv is None:
            continue
        v = slot(p.upd.get(mv, mv), i, mv)
        old = sel(mv, num(i))
        what = "sum %d adds the %s of the %s result of the %s search" % (i, c, which, NAMES[s_])
        if v is None:
            R.und(rule, w, what)
        elif not have:
            R.check(True if v is old else None if foreign(v) else False, rule, w, what + ", and nothing when there is none", L.span)
        elif v is old:
            R.bad(rule, w, what + "; nothing is added", L.span)
        elif v.op == "fadd" and old in v.a:
            y = v.a[1] if v.a[0] is old else v.a[0]
            R.check(cmp_res(f, y.a[0], x) if y.op == "i2f" else None if foreign(y) else False, rule, w, what + "; it adds %s" % short(y), L.span)
        elif v.op == "fsub" and old in v.a[:2]:
            R.bad(rule, w, what + "; it is subtracted", L.span)
        else:
            R.check(None if foreign(v) else False, rule, w, what + "; it is %s" % short(v), L.span)


NAMES = {"time": "time-optimal", "approx": "approximated", "exact": "exact"}


def cmp_res(f, x, want):
    mine = {y for y in subterms(want) if y.op == "ret"}
    return True if f.eqv(x, want) else None if foreign(f.simp(x), lambda y: y in mine or RUNS.search(str(y.a[-1])) is not None if y.op == "ret" else False) else False


RUNS = re.compile(r"interface::run$|^run$")


def walls(R, rule, w, o, L, times, full):
    """the time that is measured around a search goes to this search"""
    n, _ = space(L)
    avg = {e.ret: e for e in o.events if isinstance(e, Ev) and e.name.endswith("Times::average")}
    for field, r_ in (("time_optimal", "time"), ("space_optimal_approximated", "approx"), ("full", "exact")):
        t = fld(times, field)
        what = "the wall time of the %s search" % NAMES[r_]
        if r_ == "exact":
            some_ = o.facts.decide(isv(t, "Some"))
            R.check(some_ == full if some_ is not None else None, rule, w, "there is a wall time of the exact search when it is run only", L.span)
            if not full or some_ is not True:
                continue
            t = fld(t, "Some.0")
        t = o.facts.simp(t)
        if t not in avg:
            R.und(rule, w, what + ": %s" % short(t))
            continue
        v = (avg[t].pre or avg[t].args)[0]
        if v.op != "phi" or v.a[0] != L.lid:
            if v.op == "ret" and any(isinstance(e, Ev) and e.ret is v and e.name.endswith("Default::default") for e in o.events):
                R.bad(rule, w, what + " is summed up; it stays %s" % short(v), L.span)
                continue
            R.check(None if foreign(v) or v.op == "ret" else False, rule, w, what + " is summed up; it is %s" % short(v), L.span)
            continue
        for p in backs(L):
            if not feasible(p.facts):
                continue
            u = p.upd.get(v)
            add_ = next((e for e in p.events if isinstance(e, Ev) and re.search(r"ops::(AddAssign::add_assign|Add::add)$", e.name) and (
                u.op == "after" and u.a[0] == e.cid or u is e.ret)), None)
            if u is v:
                R.bad(rule, w, what + " is summed up; nothing is added", L.span)
                continue
            if add_ is None:
                off = any(isinstance(e, Ev) and re.search(r"ops::(SubAssign::sub_assign|Sub::sub)$", e.name) and v in (e.pre or e.args) and (
                    u.op == "after" and u.a[0] == e.cid or u is e.ret) for e in p.events)
                R.check(False if off else None, rule, w, what + (" is added to its sum; it is taken off" if off else ": %s" % short(u)), L.span)
                continue
            a = list(add_.pre or add_.args)
            el = next((e for e in p.events if isinstance(e, Ev) and e.name.endswith("Instant::elapsed") and e.ret in a), None)
            if v not in a or el is None:
                R.check(None if el is None else False, rule, w, what + " is added to its sum", add_.span)
                continue
            st = (el.pre or el.args)[0]
            i0 = next((i for i, e in enumerate(p.events) if isinstance(e, Ev) and e.name.endswith("Instant::now") and e.ret is st), None)
            i1 = p.events.index(el)
            if i0 is None:
                R.und(rule, w, what + ": since when it is measured")
                continue
            runs = [role(e, p.facts) for e in p.events[i0:i1] if isinstance(e, Ev) and e.name.endswith("interface::run")]
            gen = [e for e in p.events[i0:i1] if isinstance(e, Ev) and re.search(r"plots::get_(graph|order)$", e.name)]
            R.check(runs == [r_] and not gen, rule, w, what + " is measured around this search; it is measured around %s" % (
                " and ".join([NAMES[x] for x in runs] + ["the generator"] * bool(gen)) or "nothing"), el.span)


def average(R, P, cfg, rel, rule):
    """wall times are averaged over the rounds"""
    w = "Times (%s)" % rel
    b, ns, outs = doit(R, P, cfg)
    rounds = set()
    for o in outs:
        if o.kind == "ret" and feasible(o.facts):
            for e in walk_loops(o.events):
                if any(isinstance(x, Ev) and x.name.endswith("interface::run") for p in backs(e.loop) for x in p.events):
                    rounds.add(space(e.loop)[0])
    if len(rounds) != 1 or None in rounds:
        raise Undecided("the number of rounds")
    n = list(rounds)[0]
    b = P.get(r"Times::average$", cfg)
    I, outs = summarise(R, P, b, cfg, names=["time"])
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        by = []
        for t in [o.ret] + [x for e in o.events if isinstance(e, Ev) for x in (e.pre or e.args) if isinstance(x, T)]:
            by += [x.a[2] for x in subterms(t) if x.op == "bin" and str(x.a[0]) == "Div"] + [x.a[1] for x in subterms(t) if x.op == "div"]
        by += [(e.pre or e.args)[1] for e in o.events if isinstance(e, Ev) and re.search(r"ops::Div(Assign)?::div", e.name)]
        by = list(dict.fromkeys(by))
        if len(by) != 1:
            raise Undecided("what wall times are divided by")
        R.check(True if o.facts.eqv(by[0], n) else None if foreign(by[0]) else False, rule, w, "wall times are averaged over the rounds; they are divided by %s" % short(by[0]), b.get("span"))


# ------------------------------------------------------------------ sweeps
def sweep(R, P, cfg, rel, rule):
    ga = gen_params(P, cfg, R)
    for mod in ("node", "density"):
        w = "%s::run (%s)" % (mod, rel)
        with guard(R, rule, w):
            one_sweep(R, P, cfg, w, rule, mod, ga)


def gen_params(P, cfg, R):
    """the positions of the densities, the size and the flag of the statistics"""
    b = P.get(r"plots::do_it$", cfg, generic=True)
    b2, ns, outs = doit(R, P, cfg)
    r = {}
    for o in outs:
        for e in walk(o.events):
            if isinstance(e, Ev) and re.search(r"plots::get_(graph|order)$", e.name):
                k = e.name[-5:]
                for x in (e.pre or e.args):
                    if x.op == "sym" and x.a[0] in ns:
                        t = b["locals"][1 + ns.index(x.a[0])]["ty"]
                        if t == "usize":
                            r["size"] = ns.index(x.a[0])
                        elif "Density" in t:
                            r[k] = ns.index(x.a[0])
    for i in range(len(ns)):
        t = b["locals"][1 + i]["ty"]
        if t.endswith("Duration"):
            r["timeout"] = i
    return r


def one_sweep(R, P, cfg, w, rule, mod, ga):
    b = P.get(r"plots::%s::run$" % mod, cfg)
    I, outs = summarise(R, P, b, cfg, names=["args"], opaque=[r"plots::do_it(::<|$)", r"::timeouts$"])
    seen = set()
    cols = statistics_of(P, cfg)
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        for e in walk_loops(o.events):
            L = e.loop
            calls_ = [(p, x) for p in backs(L) for x in p.events if isinstance(x, Ev) and x.name.endswith("plots::do_it")]
            if not calls_:
                continue
            for p, x in calls_:
                if id(p) in seen:
                    continue
                seen.add(id(p))
                a = list(x.pre or x.args)
                for k, good, wrong in (("graph", "edge_density", "correction_density"), ("order", "correction_density", "edge_density")):
                    if k not in ga:
                        R.und(rule, w, "which argument is the density of the %s" % k)
                        continue
                    t = a[ga[k]]
                    nm = {y.a[1] for y in subterms(t) if y.op == "fld"}
                    # the density sweep takes the density of the corrections from its counter
                    own = any(z.startswith(good) for z in nm) or mod == "density" and k == "order" and contains(t, lambda y: y is K(L))
                    bad = any(z.startswith(wrong) for z in nm) or mod == "density" and k == "graph" and contains(t, lambda y: y is K(L))
                    R.check(False if bad else True if own else None, rule, w, "the density of the %s is the given one; it is %s" % (k, short(t)), x.span)
                if mod == "node" and "size" in ga:
                    t = a[ga["size"]]
                    R.check(True if contains(t, lambda y: y is K(L)) else None if foreign(t) else False, rule, w, "the size is swept", x.span)
                    to = a[ga["timeout"]]
                    if to.op == "sel":
                        R.check(True if to.a[1] is t else None if foreign(to.a[1]) else False, rule, w, "the timeout is the one for this size; it is at %s" % short(to.a[1]), x.span)
                # what is filed
                filed(R, rule, w, o, p, L, x, *cols)


def columns(R, rule, w, init, evs, x, counts, flag):
    """there is a column for the mean and for the deviation of every statistic"""
    n = intval(init.a[1]) if init is not None and init.op == "fill" else None
    if n is None and init is not None:
        n = intval(length(init))
    ev = next((e for e in evs if isinstance(e, Ev) and e.ret is init), None) if init is not None else None
    m = re.search(r"; (\d+)(_usize)?\]$", str(ev.ty)) if ev is not None else None
    n = int(m.group(1)) if n is None and m else n
    a = list(x.pre or x.args)
    if n is None or flag is None or not counts or None in counts.values():
        R.und(rule, w, "the columns of the statistics")
        return
    full = a[flag]
    may = [full.a[0]] if full.op == "bool" else [False, True]
    bad = [k for k in may if 2 * counts.get(k, 0) > n]
    R.check(not bad, rule, w, "there is a column for every statistic: %d columns%s" % (n, ", %d statistics each with mean and deviation" % counts[bad[0]] if bad else ""), x.span)


def statistics_of(P, cfg):
    """how many statistics come back, with and without the exact search"""
    b = P.get(r"plots::do_it$", cfg, generic=True)
    _, ns, outs = doit(Report("C25"), P, cfg)
    fl = [i for i, y in enumerate(ns) if b["locals"][1 + i]["ty"] == "bool"]
    if len(fl) != 1:
        return None, {}
    r = {}
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        full = o.facts.decide(sy(ns[fl[0]]))
        v = o.facts.simp(fld(o.ret, "0"))
        init = v
        if v.op == "phi":
            L = next((e.loop for e in walk_loops(o.events) if e.loop.lid == v.a[0]), None)
            init = L.entry.get(v) if L else None
            if L is None or any(u.op != "upd" and u is not v for q in backs(L) for u in [q.upd.get(v, v)]):
                init = None
        n = intval(o.facts.simp(length(init))) if init is not None else None
        for k in ([full] if full is not None else [False, True]):
            r[k] = n if r.get(k, n) == n else None
    return fl[0], r


def filed(R, rule, w, o, p, L, x, flag=None, counts=None):
    res, tm = fld(x.ret, "0"), fld(x.ret, "1")
    okt = [v for v, u in p.upd.items() if u.op == "push" and u.a[0] is v and u.a[1] is tm]
    wr = next((e for e in o.events if isinstance(e, Ev) and re.search(r"serde_json::.*to_writer", e.name)), None)
    out = (wr.pre or wr.args)[1] if wr else None
    kept = okt or None
    if not okt and out is not None and out.op == "agg" and "time_results" in out.a[2]:
        t = dict(zip(out.a[2], out.a[3]))["time_results"]
        if (t is mk("vec0") or p.upd.get(t) is t) and not any(isinstance(e, Ev) and e is not x and tm in (e.pre or e.args) for e in walk(p.events)):
            kept = False
    R.check(True if kept else kept, rule, w, "the wall times of every step are kept", x.span)
    for le_ in walk_loops(p.events):
        L2 = le_.loop
        if not any(contains(u, lambda y: y is res or y.op == "sel" and y.a[0] is res) for q in backs(L2) for u in q.upd.values()):
            continue
        k = K(L2)
        n, _ = space(L2)
        for q in backs(L2):
            if not any(contains(u, lambda y: y.op == "sel" and y.a[0] is res) for u in q.upd.values()) and feasible(q.facts):
                R.check(None if any(foreign(l, lambda y: y is x.ret) for l in q.lits) else False, rule, w, "the statistics of all searches are filed; not those left out under %s" % ", ".join(short(l) for l in q.lits), L2.span)
            for v, u in q.upd.items():
                if not contains(u, lambda y: y.op == "sel" and y.a[0] is res):
                    continue
                base, us = peel(u, [v])
                if base is not v:
                    R.und(rule, w, "how statistics are filed")
                    continue
                got = {}
                for y in us:
                    row, val_ = y[1], y[2]
                    new = []
                    while val_.op == "push":
                        new.insert(0, val_.a[1])
                        val_ = val_.a[0]
                    if not new or row_of(val_, v) is not row:
                        raise Undecided("how statistics are filed: %s" % short(val_))
                    got.setdefault(row, []).extend(new)
                at = {y.a[1] for y in subterms(u) if y.op == "sel" and y.a[0] is res}
                if len(at) != 1:
                    raise Undecided("which statistics are filed")
                k = list(at)[0]
                cov = covers(p.facts, L2, k, n, length(res)) if n is not None else None
                c, d = aff(k)
                if n is None and d == {K(L2): 1} and intval(sub(k, K(L2))) not in (None, 0):
                    cov = False
                R.check(cov, rule, w, "the statistics of all searches are filed", L2.span)
                want = {scale(k, 2): fld(sel(res, k), "0"), add(scale(k, 2), num(1)): fld(sel(res, k), "1")}
                good = set(got) == set(want) and all(len(got[r_]) == 1 and got[r_][0] is want[r_] for r_ in got)
                sure = not any(foreign(z, lambda y: y is x.ret) for r_ in got for z in [r_] + got[r_])
                R.check(True if good else False if sure else None, rule, w, "mean and deviation of search value i are filed under 2i and 2i+1; they are under %s" %
                        ", ".join("%s: %s" % (short(r_), "/".join(short(z) for z in got[r_])) for r_ in got), L2.span)
                columns(R, rule, w, L.entry.get(L2.entry.get(v)), o.events, x, counts, flag)
                if out is not None and out.op == "agg":
                    inv = [y for y in subterms(out) if y.op == "phi" and y.a[0] == L.lid]
                    mine = [y for y in inv if p.upd.get(y) is not None and contains(p.upd[y], lambda z: z is v or z.op == "phi" and z.a[0] == L2.lid)]
                    names = dict(zip(out.a[2], out.a[3]))
                    R.check(True if names.get("results") in mine else None if "results" not in names or foreign(names["results"]) else False, rule, w, "the statistics are what is written", wr.span)
                    if "time_results" in names and okt:
                        R.check(True if names["time_results"] in okt else None if foreign(names["time_results"]) else False, rule, w, "the wall times are what is written; it is %s of %s" % (short(names["time_results"]), okt), wr.span)


RULES = {"C25": c25}

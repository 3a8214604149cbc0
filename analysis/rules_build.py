"""C22 (building a graph buffer) and C23 (building the dependency structure)."""
from rulelib import *
from rules_space import find_loop, graph_fields, is_state
from rules_time import pg_fields, member, set_of, ms_summary, VEC, PART, part_fields, powerset_of


# ------------------------------------------------------------------ nests of loops
def span_of(L, n, idx):
    """range [lo, hi) of idx over the n iterations of L (None when idx is not of that form)"""
    k = K(L)
    c, d = aff(idx)
    if d.get(k) == 1:
        lo = sub(idx, k)
        hi = add(lo, n)
    elif d.get(k) == -1:
        hi = add(add(idx, k), num(1))
        lo = sub(hi, n)
    else:
        return None
    if mentions(lo, L) or mentions(hi, L):
        return None
    return lo, hi


class Leaf:
    def __init__(self, stack, path, phi, val):
        self.stack, self.path, self.phi, self.val = stack, path, phi, val


def writers(R, rule, where, events, v, facts, stack=(), seen=None):
    """the loop nest(s) that compute v: (leaves, the value the nest starts from); loops must run to completion"""
    leaves = []
    while v.op == "phi":
        le_ = find_loop(events, v.a[0])
        if le_ is None:
            break
        L = le_.loop
        n, comp = space(L)
        if n is None:
            raise Undecided("loop is not counted")
        if le_.exit not in comp and feasible(le_.exit.facts):
            R.bad(rule, where, "a loop is left before everything was considered", L.span)
        for p in backs(L):
            if not feasible(p.facts):
                continue
            nv = p.upd[v]
            if nv.op == "phi" and nv is not v:
                sub_leaves, base = writers(R, rule, where, p.events, nv, p.facts, stack + ((L, n, p),))
                leaves += sub_leaves
                if base is not v:
                    leaves.append(Leaf(stack + ((L, n, p),), p, v, base))
            else:
                b = nv
                while b.op in ("push", "upd", "hput", "hdel"):
                    b = b.a[0]
                if b.op == "phi" and b is not v:
                    le2 = find_loop(p.events, b.a[0])
                    if le2 is not None and le2.exit not in space(le2.loop)[1] and L.entry.get(b) is None:
                        with R.under(p.lits):
                            R.bad(rule, where, "a loop is left before everything was considered", le2.loop.span)
                        continue
                early = [e for e in p.events if isinstance(e, LoopEv) and contains(nv, K(e.loop)) and space(e.loop)[0] is not None and e.exit not in space(e.loop)[1]]
                if early:
                    with R.under(p.lits):
                        R.bad(rule, where, "a loop is left before everything was considered", early[0].loop.span)
                    continue
                leaves.append(Leaf(stack + ((L, n, p),), p, v, nv))
        v = L.entry[v]
    return leaves, v


def idx_span(stack, idx, inner=True):
    """range of an index that depends on (at most) the innermost loop it mentions"""
    for L, n, p in reversed(stack):
        if contains(idx, K(L)):
            return span_of(L, n, idx)
    return idx, add(idx, num(1))


def full(facts, ranges, lo, hi):
    """do the ranges cover [lo, hi) without gap, each index once?  True / False / None"""
    todo, at = list(ranges), lo
    while todo:
        nx = [r for r in todo if facts.eqv(r[0], at)]
        if not nx:
            return None if any(foreign(x) for r in todo for x in r) else False
        # empty ranges first
        r = nx[0]
        todo.remove(r)
        at = r[1]
    return compare(facts, at, hi)


# ------------------------------------------------------------------ C22
def mapped(p, m, x):
    """alternatives of x translated through the optional mapping m: [(facts, value)]"""
    if m is None:
        return [(p, x)]
    return [(f, hget(m, x) if nme == "in" else x) for nme, f in refine(p, {"in": has(m, x), "out": neg(has(m, x))})]


def c22(R, ctx):
    for cfg in ("on", "off"):
        rel = "" if cfg == "on" else " (release)"
        with guard(R, "C22/new", "GraphBuffer::new" + rel):
            c22_new(R, ctx, cfg, "GraphBuffer::new" + rel)
        with guard(R, "C22/sparse", "GraphBuffer::from_sparse" + rel):
            buf = accessor(ctx, "GraphBuffer", "as_buffer", cfg)
            I, outs = summarise(R, ctx, ctx.find(r"\bGraphBuffer::from_sparse$", cfg), cfg, names=["lists"])
            for o in outs:
                if o.kind == "ret":
                    R.check(compare(o.facts, getp(o.ret, buf), mk("sym", "lists")), "C22/sparse", "GraphBuffer::from_sparse" + rel, "given neighbour lists are kept as they are")
        with guard(R, "C22/graph", "Graph::new" + rel):
            w = "Graph::new" + rel
            F = graph_fields(ctx, cfg)
            I, outs = summarise(R, ctx, ctx.find(r"\bGraph::<'[_\w]+>::new$", cfg), cfg, names=["lists"])
            s = mk("sym", "lists")
            for o in outs:
                if o.kind != "ret":
                    R.bad("C22/graph", w, "creating a graph does not fail")
                    continue
                with R.under(o.lits):
                    nd = getp(o.ret, F["nodes"])
                    ok_ = compare(o.facts, length(nd), length(s))
                    i = mk("sym", "node")
                    f = o.facts.assume(lt(i, length(s)))
                    x = sel(nd, i)
                    R.check(ok_, "C22/graph", w, "a graph has one node per neighbour list")
                    R.check(compare(f, fld(x, "1"), sel(s, i)), "C22/graph", w, "every node starts with exactly its given neighbour list")
                    R.check(decide(f, is_state(x, "Sleeping")), "C22/graph", w, "no node is in memory before the first step")
                    R.check(compare(f, getp(o.ret, F["current_memory"]), num(0)), "C22/graph", w, "the memory is empty before the first step")
                    R.check(compare(f, getp(o.ret, F["max_memory"]), num(0)), "C22/graph", w, "the peak is zero before the first step")


def c22_new(R, ctx, cfg, w):
    buf = accessor(ctx, "GraphBuffer", "as_buffer", cfg)
    I, outs = summarise(R, ctx, ctx.find(r"\bGraphBuffer::new$", cfg), cfg, names=["edges", "n", "map", "check"])
    E, N, M, C = (mk("sym", x) for x in ("edges", "n", "map", "check"))
    for o in outs:
        if not feasible(o.facts):
            continue
        with guard(R, "C22/new", w), R.under(o.lits):
            if o.kind == "panic":
                R.bad("C22/new", w, "building a buffer does not panic")
                continue
            v = getp(o.ret, buf)
            chk = decide(o.facts, C)
            m = o.facts.decide(isv(M, "Some"))
            if v.op == "fill" or v.op != "phi":
                if decide(o.facts, eq(length(E), num(0))) is True:
                    R.check(compare(o.facts, v, mk("fill", VEC0, N)), "C22/size", w, "there is one list per node")
                else:
                    raise Undecided("neighbour lists %s" % short(v))
                continue
            le_ = find_loop(o.events, v.a[0])
            if le_ is None:
                raise Undecided("no loop over the edges")
            L = le_.loop
            n, comp = space(L)
            if n is None:
                raise Undecided("loop over the edges is not counted")
            ent = o.facts.simp(L.entry[v])
            R.check(True if ent.op == "fill" and ent.a[0] is VEC0 and compare(o.facts, ent.a[1], N) else None if foreign(ent) or ent.op != "fill" else False, "C22/size", w, "there is one empty list per node", L.span)
            if le_.exit not in comp:
                R.bad("C22/all", w, "the loop over the edges is left early", L.span)
            ix = {x.a[1] for p in L.paths for t in list(p.lits) + list(p.upd.values()) for x in subterms(t) if x.op == "sel" and x.a[0] is E and mentions(x.a[1], L)}
            if len(ix) != 1:
                raise Undecided("edge not recognised")
            i = ix.pop()
            R.check(covers(o.facts, L, i, n, length(E)), "C22/all", w, "every edge is considered exactly once", L.span)
            e = sel(E, i)
            for p in backs(L):
                if not feasible(p.facts):
                    continue
                with guard(R, "C22/new", w), R.under(p.lits):
                    c22_edge(R, w, L, p, v, e, chk, fld(M, "Some.0") if m is True else None if m is False else 0, M, C)


def c22_edge(R, w, L, p, v, e, chk, m, M, C):
    alts0 = []
    if m == 0:
        for nme, f in refine(p.facts, {"Some": isv(M, "Some"), "None": neg(isv(M, "Some"))}):
            alts0.append((f, fld(M, "Some.0") if nme == "Some" else None))
    else:
        alts0 = [(p.facts, m)]
    for f0, mm in alts0:
        for f1, l in mapped(f0, mm, fld(e, "0")):
            for f2, r in mapped(f1, mm, fld(e, "1")):
                alts = [(nme == "checked", f3) for nme, f3 in refine(f2, {"checked": C, "unchecked": neg(C)})] if chk is None else [(chk, f2)]
                for ck, f3 in alts:
                    c22_case(R, w, L, p, v, l, r, ck, f3)


def c22_case(R, w, L, p, v, l, r, ck, f):
    nv = p.upd[v]
    a1 = upd(v, l, vpush(sel(v, l), r))
    a1 = upd(a1, r, vpush(sel(a1, r, f), l))
    a2 = upd(v, r, vpush(sel(v, r), l))
    a2 = upd(a2, l, vpush(sel(a2, l, f), r))

    def added(g):
        c1 = compare(g, nv, a1)
        return True if c1 is True else compare(g, nv, a2)
    if not ck:
        R.check(added(f), "C22/unchecked", w, "without checking every edge is added at both ends", L.span)
        return
    cases = refine(f, {"loop": eq(l, r), "edge": neg(eq(l, r))})
    for nme, g in cases:
        if nme == "loop":
            R.check(compare(g, nv, v), "C22/loop", w, "with checking a self loop is skipped", L.span)
            continue
        # adjacency is symmetric so far: one orientation tells about the other
        x, y = mk("in", r, sel(v, l)), mk("in", l, sel(v, r))
        d = g.decide(x)
        d = g.decide(y) if d is None else d
        if d is None:
            d = member(p, r, sel(v, l))
        if d is None:
            d = member(p, l, sel(v, r))
        if d is None and any(isinstance(ev, LoopEv) for ev in p.events):
            raise Undecided("presence of the edge")
        for dd in ((True, False) if d is None else (d,)):
            h = g.assume(x if dd else neg(x))
            h = h.assume(y if dd else neg(y)) if feasible(h) else h
            if not feasible(h):
                continue
            if dd:
                R.check(compare(h, nv, v), "C22/duplicate", w, "with checking an edge that is already there is skipped", L.span)
            else:
                R.check(added(h), "C22/added", w, "with checking every other edge is added at both ends", L.span)


# ------------------------------------------------------------------ C23
def c23(R, ctx):
    for cfg in ("on", "off"):
        rel = "" if cfg == "on" else " (release)"
        for nme, t in (("Vec", VEC), ("Partition", PART)):
            w = "PathGenerator<%s>::from_dependency_graph" % nme + rel
            with guard(R, "C23/build", w):
                c23_build(R, ctx, cfg, nme, t, w)
        with guard(R, "C23/buffer", "DependencyBuffer::new" + rel):
            w = "DependencyBuffer::new" + rel
            nb = accessor_len(ctx, cfg)
            I, outs = summarise(R, ctx, ctx.find(r"\bDependencyBuffer::new$", cfg), cfg, names=["n"])
            for o in outs:
                if o.kind == "ret":
                    R.check(compare(o.facts, getp(o.ret, nb), mk("fill", VEC0, mk("sym", "n"))), "C23/buffer", w, "a new buffer holds one empty list per node")


def accessor_len(ctx, cfg):
    """field of the dependency buffer that num_bits measures"""
    b = ctx.find(r"\bDependencyBuffer::num_bits$", cfg)
    I = ctx.interp(cfg)
    outs = I.run_fn(b, names=["self"])
    t = outs[0].ret
    if len(outs) != 1 or t.op != "len":
        raise Undecided("DependencyBuffer::num_bits")
    t, path = t.a[0], []
    while t.op == "fld":
        path.append(t.a[1])
        t = t.a[0]
    return tuple(reversed(path))


def c23_build(R, ctx, cfg, nme, t, w):
    F = pg_fields(ctx, cfg)
    nb = accessor_len(ctx, cfg)
    pats = [r"\bPathGenerator::<'_, %s>::from_dependency_graph$" % t, r"\bPathGenerator::<'l, T>::from_dependency_graph$", r"\bPathGenerator::<'_, T>::from_dependency_graph$"]
    b = None
    for pt in pats:
        try:
            b = ctx.find(pt, cfg)
            break
        except Undecided:
            pass
    if b is None:
        raise Undecided("from_dependency_graph")
    I, outs = summarise(R, ctx, b, cfg, names=["order", "buf", "map"], summaries=ms_summary(ctx, cfg, t))
    A, M = mk("sym", "order"), mk("sym", "map")
    D0 = getp(mk("sym", "buf"), nb)
    some_ret = 0
    for o in outs:
        if not feasible(o.facts):
            continue
        with guard(R, "C23/build", w), R.under(o.lits):
            if o.kind == "panic":
                if strictly_about(o, A, M):
                    R.bad("C23/panic", w, "building does not panic for any ordering")
                continue
            some_ret += 1
            S = set_of(getp(o.ret, F["meas"]), nme)
            if nme == "Partition":
                sf, itf = part_fields(ctx, cfg)
                e = powerset_of(fld(getp(o.ret, F["meas"]), itf))
                R.check(False if e is False else None if e is None else compare(o.facts, e, length(S)), "C23/measurable", w, "all subsets of the measurable nodes are enumerated")
            cnt, dep = getp(o.ret, F["cnt"]), getp(o.ret, F["dep"])
            R.check(compare(o.facts, dep, getp(o.state.store[("P", "buf")], nb)), "C23/buffer", w, "the generator uses the structure in the given buffer")
            if decide(o.facts, eq(length(A), num(0))) is True:
                R.check(compare(o.facts, length(S), num(0)), "C23/empty", w, "nothing is measurable in an empty ordering")
                R.check(compare(o.facts, hlen(cnt), num(0)), "C23/empty", w, "nothing is blocked in an empty ordering")
                continue
            # the ordering after the mapping
            m = o.facts.decide(isv(M, "Some"))
            if m is None:
                raise Undecided("mapping")
            G, f = A, o.facts
            if m:
                G = mapped_order(o, A, S, cnt, dep)
                if G is A:
                    R.bad("C23/mapping", w, "the mapping is not applied before the structure is built")
                    continue
                with guard(R, "C23/mapping", w):
                    check_mapping(R, w, o, G, A, fld(M, "Some.0"))
                f = f.assume(eq(length(G), length(A)))
            with guard(R, "C23/measurable", w):
                check_first(R, w, o, f, S, G)
            with guard(R, "C23/blocked", w):
                check_counters(R, w, o, f, cnt, G)
            with guard(R, "C23/dependents", w):
                check_dependents_built(R, w, o, f, dep, D0, G)
    if not some_ret:
        R.und("C23/build", w, "no result")


def strictly_about(o, A, M):
    """the conditions of a path talk about nothing but the arguments' shape"""
    for c in o.lits:
        for x in subterms(c):
            if x.op in ("phi", "ret", "after") or x.op in OPAQUE_OPS:
                return False
            if x.op == "sel" and x.a[0] is not A:
                return False
    return not any("has" in {x.op for x in subterms(c)} for c in o.lits)


def mapped_order(o, A, S, cnt, dep):
    """the ordering that is used for the structure"""
    r = {x.a[0] for t in (S,) for x in subterms(t) if x.op == "sel" and isnum(x.a[1]) and intval(x.a[1]) == 0}
    if len(r) == 1:
        return r.pop()
    r = set()
    for v in (cnt, S):
        T = Report("C23")
        try:
            leaves, base = writers(T, "", "", o.events, v, o.facts)
        except Undecided:
            continue
        for l in leaves:
            for x in subterms(l.val):
                if x.op == "fld" and x.a[1] == "0" and x.a[0].op == "sel" and x.a[0].a[0].op == "sel":
                    r.add(x.a[0].a[0].a[0])
    if len(r) == 1:
        return r.pop()
    raise Undecided("ordering that is used")


def node_of(t, G):
    """(i, j) for the node G[i][j].0"""
    if t is not None and t.op == "fld" and t.a[1] == "0" and t.a[0].op == "sel" and t.a[0].a[0].op == "sel" and t.a[0].a[0].a[0] is G:
        return t.a[0].a[0].a[1], t.a[0].a[1]
    return None


def layer_span(l, i):
    """layers a leaf is reached for"""
    s = idx_span(l.stack, i)
    if s is None:
        raise Undecided("layer index %s" % short(i))
    f = l.path.facts
    if not feasible(f):
        return None
    d = decide(f, eq(i, s[0]))
    if d is True:
        return s[0], add(s[0], num(1))
    if d is False:
        return add(s[0], num(1)), s[1]
    return s


def check_rows(R, rule, w, f, leaves, keyof, G, lo, hi, what, otherwise):
    """the leaves that do something (keyof: the node it is done for) handle every node of the layers [lo, hi) exactly once"""
    ranges = []
    idx = {}
    for l in leaves:
        key = keyof(l)
        if key is None:
            continue
        ij = node_of(key, G)
        if ij is None:
            raise Undecided("node %s" % short(key))
        i, j = ij
        idx[tuple(id(x[0]) for x in l.stack)] = ij
        sj = idx_span(l.stack, j)
        if sj is None:
            raise Undecided("index %s" % short(j))
        si = layer_span(l, i)
        if si is None:
            continue
        L = l.stack[-1][0]
        R.check(compare(l.path.facts, sj[0], num(0)) and compare(l.path.facts, sj[1], length(sel(G, i))), rule, w, "every node of a layer: " + what, L.span)
        if si not in ranges:
            ranges.append(si)
    for l in leaves:
        if keyof(l) is not None:
            continue
        ij = idx.get(tuple(id(x[0]) for x in l.stack))
        if ij is None:
            raise Undecided("an iteration without effect")
        si = layer_span(l, ij[0])
        if si is None or decide(f, le(si[1], lo)) is True or decide(f, le(hi, si[0])) is True:
            continue
        # the same layer, but only some of its nodes
        with R.under(l.path.lits):
            R.bad(rule, w, otherwise, l.stack[-1][0].span)
    if not ranges:
        raise Undecided("no loop for " + what)
    R.check(full(f, ranges, lo, hi), rule, w, "all layers: " + what)


def check_first(R, w, o, f, S, G):
    row = sel(G, num(0))
    i = mk("sym", "bit")
    if S.op == "phi":
        leaves, base = writers(R, "C23/measurable", w, o.events, S, f)
        R.check(compare(f, base, VEC0), "C23/measurable", w, "nothing is measurable at the beginning")
        keys = {}
        for l in leaves:
            if l.val.op == "push" and l.val.a[0] is l.phi:
                keys[id(l)] = l.val.a[1]
            elif l.val is not l.phi:
                raise Undecided("measurable nodes %s" % short(l.val))
        check_rows(R, "C23/measurable", w, f, leaves, lambda l: keys.get(id(l)), G, num(0), num(1), "is measurable", "a node of the first layer is not measurable")
        return
    R.check(compare(f, length(S), length(row)), "C23/measurable", w, "exactly the nodes of the first layer are measurable")
    g = f.assume(lt(i, length(row)))
    if feasible(g):
        R.check(compare(g, sel(S, i), fld(sel(row, i), "0")), "C23/measurable", w, "the measurable nodes are those of the first layer")


def check_counters(R, w, o, f, cnt, G):
    if cnt is HNEW:
        if decide(f, lt(num(1), length(G))) is not False:
            R.bad("C23/blocked", w, "later nodes are not blocked")
        return
    if cnt.op != "phi":
        raise Undecided("counters %s" % short(cnt))
    leaves, base = writers(R, "C23/blocked", w, o.events, cnt, f)
    R.check(compare(f, base, HNEW), "C23/blocked", w, "nothing is blocked at the beginning")
    keys = {}
    for l in leaves:
        if l.val.op == "hput" and l.val.a[0] is l.phi:
            keys[id(l)] = l.val.a[1]
        elif l.val is not l.phi:
            raise Undecided("counters %s" % short(l.val))
    check_rows(R, "C23/blocked", w, f, leaves, lambda l: keys.get(id(l)), G, num(1), length(G), "is blocked", "a node of a later layer is not blocked")
    for l in leaves:
        if id(l) in keys:
            i, j = node_of(keys[id(l)], G)
            R.check(compare(l.path.facts, l.val.a[2], length(fld(sel(sel(G, i), j), "1"))), "C23/blocked", w, "a node is blocked by the number of its listed dependencies", l.stack[-1][0].span)


def check_dependents_built(R, w, o, f, dep, D0, G):
    if dep.op != "phi":
        if dep is D0:
            R.bad("C23/dependents", w, "no dependents are registered")
            return
        raise Undecided("dependents %s" % short(dep))
    leaves, base = writers(R, "C23/dependents", w, o.events, dep, f)
    R.check(compare(f, base, D0), "C23/dependents", w, "the structure is built in the given buffer")
    keys, deep = {}, {}
    for l in leaves:
        if l.val.op == "upd" and l.val.a[0] is l.phi:
            keys[id(l)] = l.val.a[1]
        elif l.val is not l.phi:
            raise Undecided("dependents %s" % short(l.val))
    # rows that are built in place: cleared, then extended in nested loops
    for l in leaves:
        if id(l) in keys and l.val.a[2] is VEC0:
            pre = [x[0].lid for x in l.stack]
            deep[id(l)] = [q for q in leaves if len(q.stack) > len(pre) and [x[0].lid for x in q.stack[:len(pre)]] == pre]
    inner = {id(q) for qs in deep.values() for q in qs}
    outer = [l for l in leaves if id(l) not in inner]
    check_rows(R, "C23/dependents", w, f, outer, lambda l: keys.get(id(l)), G, num(0), length(G), "its dependents are registered", "no dependents are registered for a node (they may be stale)")
    for l in outer:
        if id(l) not in keys:
            continue
        with guard(R, "C23/dependents", w):
            i, j = node_of(keys[id(l)], G)
            if deep.get(id(l)):
                rowleaves = []
                for q in deep[id(l)]:
                    if q.val is q.phi:
                        rowleaves.append((q, sel(q.phi, keys[id(l)]), sel(q.phi, keys[id(l)])))
                    elif q.val.op == "upd" and compare(q.path.facts, q.val.a[1], keys[id(l)]) is True:
                        rowleaves.append((q, sel(q.phi, keys[id(l)]), q.val.a[2]))
                    else:
                        raise Undecided("row %s" % short(q.val))
                check_row_leaves(R, w, l, keys[id(l)], i, rowleaves, G)
            else:
                check_row(R, w, l, keys[id(l)], i, l.val.a[2], G)


def check_row(R, w, l, node, i, row, G):
    """row holds exactly the nodes of the layers behind i that list node"""
    rule, span = "C23/dependents", l.stack[-1][0].span
    f = l.path.facts
    if row is VEC0:
        if decide(f, lt(add(i, num(1)), length(G))) is not False:
            R.bad(rule, w, "the dependents of a node are lost", span)
        return
    if row.op != "phi":
        raise Undecided("row %s" % short(row))
    leaves, base = writers(R, rule, w, l.path.events, row, f)
    R.check(compare(f, base, VEC0), rule, w, "the dependents of a node start empty (nothing stale stays)", span)
    check_row_leaves(R, w, l, node, i, [(q, q.phi, q.val) for q in leaves], G)


def cut_short(p, elem, lst):
    """path p gives up the only search for elem in lst after a constant number of entries although there may be more"""
    S = [e for e in p.events if isinstance(e, LoopEv) and any(x.op == "sel" and x.a[0] is lst for q in e.loop.paths for c in q.lits for x in subterms(c))]
    if len(S) != 1 or any(isinstance(e, LoopEv) and e is not S[0] for e in p.events) or any(foreign(c) for c in p.lits):
        return False
    if any(lst in y.a and y.op not in ("len", "sel") for c in p.lits for y in subterms(c)):
        return False
    L, x = S[0].loop, S[0].exit
    k = K(L)
    hit = {y for b in backs(L) for c in b.lits for y in subterms(c) if y.op == "sel" and y.a[0] is lst and contains(y.a[1], k)}
    if len(hit) != 1 or any(decide(b.facts, eq(list(hit)[0], elem)) is not False for b in backs(L)) or not backs(L):
        return False
    if not any(c.op in ("eq0", "lt0") and set(subterms(c)) <= {c, c.a[0], k} and contains(c, k) for c in x.lits):
        return False
    f = p.facts.assume(lt(k, length(lst)))
    return feasible(f) and decide(p.facts, le(length(lst), k)) is None and not any(hit & set(subterms(c)) for c in x.lits)


def check_row_leaves(R, w, l, node, i, leaves, G):
    rule, span = "C23/dependents", l.stack[-1][0].span
    f = l.path.facts
    ranges, bad = [], False
    for q, old, val in leaves:
        with guard(R, rule, w), R.under(q.path.lits):
            # the node that is looked at
            cand = {(x.a[0].a[1], x.a[1]) for t in list(q.path.lits) + [val] + [c for e in q.path.events if isinstance(e, LoopEv) for z in e.loop.paths for c in z.lits]
                    for x in subterms(t) if x.op == "sel" and x.a[0].op == "sel" and x.a[0].a[0] is G and contains(x.a[1], K(q.stack[-1][0]))}
            if len(cand) != 1:
                bad = True
                raise Undecided("node that is looked at")
            i2, j2 = cand.pop()
            e2 = sel(sel(G, i2), j2)
            s2, t2 = idx_span(q.stack, i2), idx_span(q.stack, j2)
            if s2 is None or t2 is None:
                bad = True
                raise Undecided("index of the node that is looked at")
            R.check(compare(q.path.facts, t2[0], num(0)) and compare(q.path.facts, t2[1], length(sel(G, i2))), rule, w, "every node of a later layer is looked at", span)
            if s2 not in ranges:
                ranges.append(s2)
            d = member(q.path, node, fld(e2, "1"))
            if d is None:
                if not cut_short(q.path, node, fld(e2, "1")) and (any(isinstance(e, LoopEv) for e in q.path.events) or any(foreign(c) for c in q.path.lits)):
                    raise Undecided("listed dependency")
                R.bad(rule, w, "the list of dependencies is not searched completely", span)
                continue
            R.check(compare(q.path.facts, val, vpush(old, fld(e2, "0")) if d else old), rule, w, "a later node is a dependent exactly if it lists the node", span)
    if ranges and not bad:
        R.check(full(f, ranges, add(i, num(1)), length(G)), rule, w, "all later layers are looked at", span)


def check_mapping(R, w, o, G, A, m):
    """G is A with every node and every dependency translated by m"""
    rule = "C23/mapping"
    if G.op != "phi":
        raise Undecided("mapped ordering %s" % short(G))
    le_ = find_loop(o.events, G.a[0])
    if le_ is None:
        raise Undecided("no loop for the mapping")
    L = le_.loop
    n, comp = space(L)
    f = o.facts
    R.check(compare(f, L.entry[G], A), rule, w, "the mapping starts from the given ordering", L.span)
    R.check(None if n is None else compare(f, n, length(A)), rule, w, "every layer is mapped", L.span)
    if le_.exit not in comp:
        R.bad(rule, w, "mapping is left early", L.span)
    li = K(L)
    for p in backs(L):
        v1 = p.upd[G]
        if v1.op != "phi":
            if v1 is G and not p.lits[1:]:
                R.bad(rule, w, "a layer is not mapped", L.span)
                continue
            raise Undecided("mapped layer %s" % short(v1))
        e2 = find_loop(p.events, v1.a[0])
        L2 = e2.loop
        n2, comp2 = space(L2)
        R.check(compare(p.facts, L2.entry[v1], G), rule, w, "layers are carried along", L2.span)
        R.check(None if n2 is None else compare(p.facts, n2, length(sel(G, li))), rule, w, "every node of a layer is mapped", L2.span)
        if e2.exit not in comp2:
            R.bad(rule, w, "mapping is left early", L2.span)
        bi = K(L2)
        for q in backs(L2):
            if not feasible(q.facts):
                continue
            with guard(R, rule, w), R.under(q.lits):
                v2 = q.upd[v1]
                old = sel(sel(v1, li), bi)
                for f2, want in mapped(q.facts, m, fld(old, "0")):
                    base = v2
                    L3 = None
                    if v2.op == "phi" and v2 is not v1:
                        e3 = find_loop(q.events, v2.a[0])
                        L3 = e3.loop
                        base = L3.entry[v2]
                    wanted = upd(v1, li, upd(sel(v1, li), bi, withf(old, "0", want))) if want is not fld(old, "0") else v1
                    R.check(compare(f2, base, wanted), rule, w, "a node is replaced by its image, an unmapped node stays", L2.span)
                if L3 is None:
                    if decide(q.facts, eq(length(fld(old, "1")), num(0))) is not True:
                        R.check(False if not foreign(v2) and v2.op in ("phi", "upd") else None, rule, w, "dependencies are mapped", L2.span)
                    continue
                n3, comp3 = space(L3)
                R.check(None if n3 is None else compare(q.facts, n3, length(fld(old, "1"))), rule, w, "every dependency is mapped", L3.span)
                if e3.exit not in comp3:
                    R.bad(rule, w, "mapping is left early", L3.span)
                di = K(L3)
                for z in backs(L3):
                    with guard(R, rule, w), R.under(z.lits):
                        o3 = sel(sel(v2, li), bi)
                        dd = sel(fld(o3, "1"), di)
                        for f3, want in mapped(z.facts, m, dd):
                            wanted = upd(v2, li, upd(sel(v2, li), bi, withf(o3, "1", upd(fld(o3, "1"), di, want)))) if want is not dd else v2
                            R.check(compare(f3, z.upd[v2], wanted), rule, w, "a dependency is replaced by its image, an unmapped one stays", L3.span)


RULES = {"C22": c22, "C23": c23}

"""C24: the Python wrapper passes everything on.

The wrapper crate is compiled against the crate of the same tree and against declarations of pyo3 (stubs/), and its MIR is
summarised like that of the crate: the calls into the crate and their arguments on every path, what the constructors store,
which names are registered. The default values and attributes that pyo3's macros read are written down by the stub macros."""
import ast
import dump as D
from rulelib import *
from stdmodel import call_value
from rules_run import walk, calls

NAMES = ["bound_best_mem", "minimal_mem", "last_max_mem", "last_cur_mem", "cur_mem", "num_remaining_nodes", "num_total_nodes"]
PARAMS = ["cutoff", "lin_num_total_nodes_exp", "exp_num_total_nodes_exp", "exp_num_remaining_nodes_exp", "exp_diff_exp", "exp_num_measured_nodes_exp"]
GIL = mk("sym", "gil")
SUMS = (
    (r"Python(::<[^>]*>)?::with_gil$", lambda c, a: call_value(c, a[0], [GIL], untuple=False)),
    (r"Python(::<[^>]*>)?::allow_threads$", lambda c, a: call_value(c, a[1], [], untuple=False)),
)
OUTER = re.compile(r"error\[(E\d+)\]")


class PyCtx(Ctx):
    def __init__(self, main):
        self.dumps, self.key = D.python_dump()
        self.mdump, self.models = main.mdump, main.models
        self._p, self.cache = {}, {}

    def get(self, pat, closures=False):
        return self.find(pat, "off", krate="_lib", closures=closures)

    def run(self, R, body, names=None, args=None, st=None, opaque=()):
        return summarise(R, self, body, "off", names=names, args=args, st=st, opaque=opaque, summaries=SUMS)[1]


def pnames(b):
    return [l.get("n") or "a%d" % (i + 1) for i, l in enumerate(b["locals"][1:b["argc"] + 1])]


def s(n):
    return mk("sym", n)


def text(t):
    """the string a term stands for"""
    while t is not None and t.op == "op" and str(t.a[0] if isinstance(t.a[0], str) else t.a[0].a[0]) in ("to_string", "to_owned", "into", "from", "clone", "as_str"):
        t = [x for x in t.a if isinstance(x, T) and x.op != "const" or isinstance(x, T)][-1]
    if t is not None and t.op == "str":
        return t.a[0]
    m = re.match(r"^'(.*)'$", show(t)) if t is not None else None
    return m.group(1) if m else None


def nested(t):
    """the list written down as nested tuples"""
    r = []
    while t.op == "agg" and len(t.a[3]) > 1:
        r.append(t.a[3][:-1])
        t = t.a[3][-1]
    return r


def c24(R, ctx):
    try:
        P = PyCtx(ctx)
    except D.BuildError as e:
        broken(R, str(e))
        return
    R.ok("C24/builds", "python_lib/rust", "the wrapper compiles against the public interface of the crate of this tree")
    for name, fn in (("C24/run", run_rule), ("C24/defaults", defaults), ("C24/accept", accept), ("C24/parameters", parameters), ("C24/paths", paths),
                     ("C24/registered", registered), ("C24/names", pynames)):
        with guard(R, name, name.split("/")[1]):
            fn(R, P, ctx, name)


def broken(R, msg):
    """the wrapper does not compile: because of the crate?"""
    at = None
    for blk in re.split(r"\n(?=error|warning)", msg):
        m = OUTER.search(blk)
        if not m or "mbqc_scheduling/src" in (re.search(r"--> (\S+)", blk) or [None, ""])[1]:
            continue
        if m.group(1) in ("E0603", "E0616", "E0451", "E0624") or re.search(r"mbqc_scheduling|`interface`|`probabilistic`", blk):
            if not re.search(r"pyo3", blk):
                at = blk
                break
    if at:
        w = re.search(r"--> (\S+)", at)
        R.bad("C24/builds", "python_lib/rust", "the wrapper compiles against the public interface of the crate: %s" % " ".join(at.split("\n")[0].split()), w.group(1) if w else None)
    else:
        R.und("C24/builds", "python_lib/rust", "the wrapper does not compile against the declarations of pyo3 that are known here: %s" %
              " ".join((re.search(r"error.*", msg) or [msg[-200:]])[0].split()))


# ------------------------------------------------------------------ run
def threads(ctx, R):
    """the paths of interface::run on which the search uses threads: [(conditions, facts)] over the parameters"""
    if "py-threads" in ctx.cache:
        return ctx.cache["py-threads"]
    bodies = ctx.prog("off").bodies
    starts = re.compile(r"scoped_threadpool::Pool::new|std::thread::(spawn|scope|Builder)|thread::Scope")

    def direct(b):
        # threads that get hold of the accept function, unlike the one that waits for the timeout
        return any(re.search(r"Accept|dyn .*Fn\(f64", l["ty"]) for l in b["locals"]) and any(starts.search(str(blk["t"].get("f", ""))) for blk in b["blocks"] if isinstance(blk["t"], dict))
    own = {b["path"] for b in bodies.values() if b["krate"] == "mbqc_scheduling" and direct(b)}
    own = {re.sub(r"::\{closure.*", "", p) for p in own}
    if not own:
        raise Undecided("no function that starts threads")
    run = ctx.find(r"interface::run$", "off")
    others = [b["path"] for b in bodies.values() if b["krate"] == "mbqc_scheduling" and len(b["blocks"]) > 5 and "{closure" not in b["path"] and
              not reaches(b, own, bodies) and b["key"] != run["key"]]
    pats = [r"^" + re.escape(p) + r"$" for p in sorted(own | set(others)) if p != run["path"]]
    I, outs = summarise(R, ctx, run, "off", names=pnames(run), opaque=pats)
    r = []
    for o in outs:
        if any(isinstance(e, Ev) and e.name in own or isinstance(e, SpawnEv) for e in walk(o.events)):
            r.append(o)
    ctx.cache["py-threads"] = (pnames(run), r)
    return ctx.cache["py-threads"]


def reaches(b, own, bodies):
    from rules_builds import callees, plain
    seen, todo = set(), [b]
    byp = {}
    for x in bodies.values():
        byp.setdefault(plain(x["path"]), []).append(x)
        byp.setdefault(plain(x["key"]), []).append(x)
    while todo:
        x = todo.pop()
        if x["key"] in seen:
            continue
        seen.add(x["key"])
        if x["path"] in own:
            return True
        for n in callees(x):
            todo += byp.get(plain(n), [])
    return False


def origin(f, e):
    """the call whose failure a returned error is"""
    if e.op == "fld" and e.a[1] == "Err.0" and e.a[0].op == "ret":
        return e.a[0]
    if e.op == "ret":
        return e
    return None


def run_rule(R, P, ctx, rule):
    b = P.get(r"^_lib::run$")
    names = pnames(b)
    want = ["spacial_graph", "time_order", "do_search", "timeout", "nthreads", "probabilistic", "task_bound"]
    if sorted(names) != sorted(want):
        raise Undecided("parameters of run: %s" % ", ".join(names))
    outs = P.run(R, b, names=names)
    g, order, prob = s("spacial_graph"), s("time_order"), s("probabilistic")
    for o in outs:
        if not feasible(o.facts):
            continue
        f = o.facts
        w = "run"
        evs = list(walk(o.events))
        cs = [e for e in evs if isinstance(e, Ev) and e.name.endswith("interface::run")]
        if o.kind == "panic":
            R.und(rule, w, "a path that panics")
            continue
        if not cs:
            if decide(f, isv(o.ret, "Ok")) is True:
                R.check(None if any(isinstance(e, Ev) and e.name.startswith("mbqc_scheduling::") for e in evs) else False, rule, w,
                        "what the search of the crate returns is returned", b.get("span"))
                continue
            err = f.simp(fld(o.ret, "Err.0"))
            src = origin(f, err)
            ev = next((e for e in evs if isinstance(e, Ev) and src is not None and e.ret is src), None)
            if ev is None:
                R.und(rule, w, "where an error comes from")
            elif re.search(r"exceptions::|PyErr::new", ev.name):
                c = custom(f, prob)
                n = decide(f, lt(num(1), s("nthreads")))
                # only custom callbacks with threads are refused
                known = [l for l in o.lits if foreign(l)]
                ok = True if c is True and n is True else None if known or any(refers(l, evs) for l in o.lits) else False
                R.check(ok, rule, w, "calls are refused for custom callbacks and several threads only", ev.span)
            else:
                R.check(True if re.search(r"pyo3::|pauli_tracker_pyo3", ev.name) else None, rule, w, "errors of the Python side are passed on", ev.span)
            continue
        if len(cs) > 1:
            R.und(rule, w, "several searches")
            continue
        e = cs[0]
        a = list(e.pre or e.args)
        R.check(True if f.eqv(o.ret, mk_ok(o.ret, e)) else None if foreign(o.ret) else result(f, o.ret, e), rule, w, "the paths found by the search are returned", e.span)
        if len(a) != 7:
            R.und(rule, w, "%d arguments of the search" % len(a))
            continue
        def same(i, x, what):
            R.check(compare(f, a[i], x, fns=True), rule, w, what + "; it is %s" % short(f.simp(a[i])), e.span)
        part = a[0].op == "slice" and f.eqv(a[0].a[0], fld(g, "0")) and not (f.eqv(a[0].a[1], num(0)) and f.eqv(a[0].a[2], mk("len", fld(g, "0"))))
        R.check(False if part else compare(f, a[0], fld(g, "0")), rule, w, "the spacial graph is passed on; it is %s" % short(f.simp(a[0])), e.span)
        R.check(order_ok(f, a[1], order, evs), rule, w, "the time order is passed on; it is %s" % short(f.simp(a[1])), e.span)
        same(2, s("do_search"), "do_search is passed on")
        for h, inner in split_opt(f, s("timeout")):
            if inner is None:
                R.check(opt(h, a[3], None), rule, w, "no timeout is passed on as none", e.span)
            else:
                R.check(opt(h, a[3], lambda h2, x: seconds(h2, x, inner)), rule, w, "the timeout is passed on in seconds; it is %s" % short(h.simp(a[3])), e.span)
        same(4, s("nthreads"), "nthreads is passed on")
        same(5, s("task_bound"), "task_bound is passed on")
        for h, inner in split_opt(f, prob):
            if inner is None:
                R.check(opt(h, a[6], None), rule, w, "no accept function is passed on as none", e.span)
                continue
            def check(h2, x, inner=inner):
                r = compare(h2, fld(x, "1"), fld(inner, "1"))
                R.check(r, rule, w, "the seed is passed on; it is %s" % short(h2.simp(fld(x, "1"))), e.span)
                real(R, P, rule, w, h2, fld(x, "0"), fld(fld(inner, "0"), "0"), e.span)
                return True
            r = opt(h, a[6], check)
            if r is not True:
                R.check(r, rule, w, "an accept function is passed on; it is %s" % short(h.simp(a[6])), e.span)
            # threads
            c = custom(h, prob)
            if c is False:
                continue
            try:
                names_, multi = threads(ctx, R)
            except (Undecided, Unsupported, TooBig) as x:
                R.und("C24/threads", w, "when the search uses threads: %s" % x)
                continue
            v = True
            for m in multi:
                h3 = h.assume(isv(fld(fld(fld(prob, "Some.0"), "0"), "0"), "Custom"))
                sure = not any(foreign(l) or refers(l, evs) for l in o.lits) or True
                for l in m.lits:
                    if h3 is None:
                        break
                    l2 = subst(l, {s(n): x for n, x in zip(names_, a)})
                    if subterms_sym(l2) & {"nthreads", "do_search"}:
                        h3 = h3.assume(h3.simp(l2))
                if feasible(h3):
                    v = False
            R.check(v, "C24/threads", w, "custom callbacks are refused for every number of threads for which the search uses threads", e.span)


def subterms_sym(t):
    return {x.a[0] for x in subterms(t) if x.op == "sym"}


def refers(l, evs):
    return any(x.op in ("ret", "after") for x in subterms(l))


def mk_ok(r, e):
    return r if r.op == "agg" and r.a[1] == "Ok" and fld(fld(r, "Ok.0"), "0") is e.ret else mk("unk", "x")


def result(f, r, e):
    x = f.simp(fld(fld(r, "Ok.0"), "0"))
    if decide(f, isv(r, "Ok")) is not True:
        return False if decide(f, isv(r, "Ok")) is False else None
    return compare(f, x, e.ret)


def custom(f, prob):
    c = decide(f, isv(prob, "Some"))
    if c is not True:
        return c
    return decide(f, isv(fld(fld(fld(prob, "Some.0"), "0"), "0"), "Custom"))


def split_opt(f, t):
    r = []
    for v in ("Some", "None"):
        g = f.assume(isv(t, v))
        if feasible(g):
            r.append((g, fld(t, "Some.0") if v == "Some" else None))
    return r


def opt(f, x, inner):
    """x is none (inner None), or some value of which inner holds"""
    x = f.simp(x)
    d = decide(f, isv(x, "Some"))
    if d is None:
        return None
    if inner is None:
        return not d
    if not d:
        return False
    return inner(f, f.simp(fld(x, "Some.0")))


DUR = {"from_secs": 1, "from_millis": 1e-3, "from_micros": 1e-6, "from_nanos": 1e-9, "from_secs_f64": 1, "from_secs_f32": 1}


def seconds(f, x, t):
    """x is a duration of t seconds"""
    if x.op == "op":
        n = str(x.a[0] if isinstance(x.a[0], str) else x.a[0].a[0])
        args = [y for y in x.a[1:] if isinstance(y, T)]
        if n in DUR and len(args) == 1:
            a = f.simp(args[0])
            while a.op == "cast" and not f.eqv(a, t):
                a = a.a[1]
            if f.eqv(a, t):
                return DUR[n] == 1
            if atoms(a) == {t} and not foreign(a):
                k = {"from_secs": 1, "from_millis": 1000, "from_micros": 10 ** 6, "from_nanos": 10 ** 9}.get(n)
                return bool(k) and f.eqv(a, scale(t, k))
            return None
        if n == "new" and len(args) == 2:
            return f.eqv(args[0], t) and f.eqv(args[1], num(0)) or None
    return None


def order_ok(f, x, order, evs):
    """the graph inside of the Python object"""
    x = f.simp(x)
    while x.op == "fld" and x.a[1] == "0" or x.op == "ref":
        x = x.a[0]
    if x.op == "fld" and x.a[1] == "Ok.0" and x.a[0].op == "ret":
        ev = next((e for e in evs if isinstance(e, Ev) and e.ret is x.a[0]), None)
        if ev is None:
            return None
        n = ev.name.split("::")[-1]
        me = (ev.pre or ev.args)[0]
        if n in ("extract", "downcast", "try_borrow"):
            if f.eqv(me, order):
                # only an ordering of this package is taken as it is
                t = [e for e in evs if isinstance(e, Ev) and e.name.endswith("::is_instance_of") and f.eqv((e.pre or e.args)[0], order) and any("PartialOrderGraph" in str(y) for y in e.fa or ())]
                return False if n == "extract" and any("PyRef" in str(y) for y in (ev.fa or ())) and any(decide(f, e.ret) is False for e in t) else True
            return order_ok(f, me, order, evs)
        if n.startswith("call_method"):
            m = text((ev.pre or ev.args)[1])
            if f.eqv(me, order):
                # the ordering of the caller is not taken away
                return True if m == "into_py_graph" else False if m == "take_into_py_graph" else None
        return None
    if x.op == "sym":
        return x is order
    return None


# ------------------------------------------------------------------ accept functions
def real(R, P, rule, w, f, x, base, span):
    """x is the accept function of the crate for the Python side's base"""
    x = f.simp(x)
    kinds = ("BuiltinHeavyside", "ParametrizedHeavyside", "Custom")
    for k in kinds:
        h = f.assume(isv(base, k))
        if not feasible(h):
            continue
        y = h.simp(x)
        got = y.a[1] if y.op == "agg" else next((z for z in kinds if decide(h, isv(y, z))), None)
        if got is None:
            R.und(rule, w, "which accept function is used for %s" % k)
            continue
        R.check(got == k, rule, w, "the kind %s uses the accept function of that kind; it uses %s" % (k, got), span)
        if got != k:
            continue
        if k == "ParametrizedHeavyside":
            R.check(compare(h, fld(y, k + ".param"), fld(base, k + ".param")), rule, w, "the parameters are passed on; they are %s" % short(h.simp(fld(y, k + ".param"))), span)
        if k == "Custom":
            custom_call(R, P, rule, w, h.simp(fld(y, "Custom.0")), fld(base, "Custom.0"), span)


def custom_call(R, P, rule, w, fv, func, span):
    key = (fv, func)
    if key in P.cache:
        return
    P.cache[key] = True
    if fv.op == "agg" and fv.a[0].startswith("closure:"):
        b = P.prog("off").bodies.get(fv.a[1])
        a = [fv] + [s(n) for n in NAMES]
    elif fv.op == "fn":
        raise Undecided("a function as the callback")
    else:
        raise Undecided("callback %s" % short(fv, 2))
    if b is None or b["argc"] != len(a):
        raise Undecided("body of the callback")
    w = w + " (callback)"
    for o in P.run(R, b, args=a):
        if not feasible(o.facts):
            continue
        evs = [e for e in walk(o.events) if isinstance(e, Ev)]
        cs = [e for e in evs if re.search(r"pyo3::.*::call(0|1|_method\d?)?$", e.name)]
        if o.kind == "panic":
            R.check(True if any(contains(l, lambda x: x.op == "is" and x.a[1] in ("Err", "Ok")) for l in o.lits) else None, rule, w, "a failing callback is not taken for an answer", span)
            continue
        if len(cs) != 1:
            R.check(False if not cs and not foreign(o.ret) and not evs else None, rule, w, "the callback is called", span)
            continue
        e = cs[0]
        args = list(e.pre or e.args)
        R.check(compare(o.facts, args[0], func), rule, w, "the given callback is called", e.span)
        tp = next((x for x in args[1:] if x.op == "agg" and len(x.a[3]) > 1), None)
        if tp is None:
            R.und(rule, w, "arguments of the callback")
            continue
        v = list(tp.a[3])
        ok = len(v) == 7 and all(o.facts.eqv(x, s(n)) for x, n in zip(v, NAMES))
        R.check(True if ok else None if any(foreign(x) for x in v) else False, rule, w,
                "the callback gets %s, in this order; it gets %s" % (", ".join(NAMES), ", ".join(str(short(x)) for x in v)), e.span)
        # the answer
        r = o.facts.simp(o.ret)
        ok = r.op == "fld" and r.a[1] == "Ok.0" and r.a[0].op == "ret"
        x = None
        if ok:
            x = next((z for z in evs if z.ret is r.a[0]), None)
            ok = x is not None and x.name.endswith("extract") and o.facts.eqv((x.pre or x.args)[0], fld(e.ret, "Ok.0"))
        # something that is computed from the answer is not the answer
        dep = contains(r, lambda z: z.op == "ret") and r.op not in ("fld", "ret", "agg", "phi", "unk", "ite")
        R.check(True if ok else False if dep or not contains(r, lambda z: z.op == "ret") and not foreign(r) or r.op in ("num", "float") else None, rule, w,
                "the answer of the callback is used; it is %s" % short(r), e.span)


def accept(R, P, ctx, rule):
    # construction
    b = P.get(r"AcceptFunc::__new__$")
    names = pnames(b)
    if sorted(names) != sorted(["kind", "heavyside_parameters", "custom_func"]):
        raise Undecided("parameters of AcceptFunc: %s" % ", ".join(names))
    w = "AcceptFunc"
    outs = [o for o in P.run(R, b, names=names) if feasible(o.facts)]
    kind = s("kind")
    met = set()
    for o in outs:
        f = o.facts
        if o.kind != "ret":
            R.und(rule, w, "a constructor that panics")
            continue
        pos = []
        other = False
        for l in o.lits:
            n = l.a[0] if l.op == "not" else l
            if n.op == "eq" and contains(n, lambda x: x is kind):
                t = [text(x) for x in n.a if isinstance(x, T) and text(x) is not None]
                if not t:
                    other = True
                elif l.op != "not":
                    pos += t
            elif contains(l, lambda x: x is kind):
                other = True
        if other:
            R.und(rule, w, "how the kind is looked at")
            continue
        ok = decide(f, isv(o.ret, "Ok"))
        if ok is None:
            R.und(rule, w, "result of the constructor")
            continue
        v = f.simp(fld(fld(o.ret, "Ok.0"), "0")) if ok else None
        got = v.a[1] if ok and v.op == "agg" else None
        hp, cf = s("heavyside_parameters"), s("custom_func")
        if len(pos) > 1:
            continue
        k = pos[0] if pos else None
        if k is None or k not in ("BuiltinHeavyside", "ParametrizedHeavyside", "Custom"):
            R.check(not ok, rule, w, "unknown kinds raise an error; the result is %s" % short(f.simp(o.ret)), b.get("span"))
            continue
        met.add(k)
        if k == "BuiltinHeavyside":
            R.check(bool(ok) and got == k if not ok or got else None, rule, w, "the kind %s selects its own accept function; it is %s" % (k, short(f.simp(o.ret))), b.get("span"))
            continue
        p = hp if k == "ParametrizedHeavyside" else cf
        d = decide(f, isv(p, "Some"))
        if d is None:
            R.check(None if ok else None, rule, w, "kind %s without looking at its parameter" % k, b.get("span"))
            continue
        if not d:
            R.check(not ok, rule, w, "the kind %s without its parameter raises an error; the result is %s" % (k, short(f.simp(o.ret))), b.get("span"))
            continue
        if not ok:
            R.check(None if any(refers(l, ()) for l in o.lits) else False, rule, w, "the kind %s with its parameter is accepted" % k, b.get("span"))
            continue
        if got is None:
            R.und(rule, w, "result for the kind %s" % k)
            continue
        want = fld(fld(p, "Some.0"), "0") if k == "ParametrizedHeavyside" else fld(p, "Some.0")
        have = fld(v, k + (".param" if k == "ParametrizedHeavyside" else ".0"))
        R.check(got == k, rule, w, "the kind %s selects its own accept function; it is %s" % (k, got), b.get("span"))
        if got == k:
            R.check(compare(f, have, want), rule, w, "the kind %s keeps its parameter; it is %s" % (k, short(f.simp(have))), b.get("span"))
    for k in ("BuiltinHeavyside", "ParametrizedHeavyside", "Custom"):
        if k not in met:
            R.check(False if not any(x[0] == "undecided" for x in R.obl) else None, rule, w, "the kind %s is known" % k, b.get("span"))
    # conversion
    for b in P.find(r"AcceptFunc::to_real$", "off", krate="_lib", many=True):
        for o in P.run(R, b, names=["self"]):
            if o.kind == "ret" and feasible(o.facts):
                real(R, P, rule, "AcceptFunc::to_real", o.facts, o.ret, fld(s("self"), "0"), b.get("span"))


def parameters(R, P, ctx, rule):
    b = P.get(r"HeavysideParameters::__new__$")
    names = pnames(b)
    if sorted(names) != sorted(PARAMS):
        raise Undecided("parameters of HeavysideParameters: %s" % ", ".join(names))
    for o in P.run(R, b, names=names):
        if not feasible(o.facts) or o.kind != "ret":
            continue
        v = o.ret
        if decide(o.facts, isv(v, "Ok")) is True and v.op == "agg" and v.a[1] == "Ok":
            v = fld(v, "Ok.0")
        for n in PARAMS:
            x = o.facts.simp(fld(fld(v, "0"), n))
            R.check(compare(o.facts, x, s(n), fns=True), rule, "HeavysideParameters", "the parameter %s is stored under its name; it is %s" % (n, short(x)), b.get("span"))


# ------------------------------------------------------------------ paths and graphs
def paths(R, P, ctx, rule):
    b = P.get(r"_lib::Path::__new__$")
    if sorted(pnames(b)) != ["space", "steps", "time"]:
        raise Undecided("parameters of Path")
    for o in P.run(R, b, names=pnames(b)):
        for n in ("time", "space", "steps"):
            x = o.facts.simp(fld(o.ret, n))
            R.check(compare(o.facts, x, s(n), fns=True), rule, "Path", "%s is stored under its name; it is %s" % (n, short(x)), b.get("span"))
    for nm, src, dst in (("Paths::__new__", s("paths"), "0"), ("Paths::into_py_paths", fld(s("self"), "0"), None), ("Paths::take_into_py_paths", fld(s("self"), "0"), None)):
        with guard(R, rule, nm):
            b = P.get(r"_lib::%s$" % nm)
            outs = [o for o in P.run(R, b, names=["paths" if dst else "self"]) if feasible(o.facts)]
            for o in outs:
                if o.kind != "ret":
                    R.und(rule, nm, "a path that panics")
                    continue
                f = o.facts
                v = f.simp(fld(o.ret, dst) if dst else o.ret)
                i = mk("sym", "i")
                f2 = f
                ln = f2.simp(mk("len", v))
                R.check(seqlen(f, v, src), rule, nm, "all paths are converted; it is %s" % short(v), b.get("span"))
                e = element(v)
                if e is None:
                    if f.eqv(v, src):
                        R.ok(rule, nm, "the paths are passed on", b.get("span"))
                    else:
                        R.und(rule, nm, "elements of the result")
                    continue
                at = [x for x in subterms(e) if x.op == "sel" and f.eqv(x.a[0], src)]
                if not at:
                    R.check(None, rule, nm, "elements of the result", b.get("span"))
                    continue
                for n in ("time", "space", "steps"):
                    x = f.simp(fld(e, n))
                    R.check(compare(f, x, fld(at[0], n), fns=True) if len(set(at)) == 1 else None, rule, nm, "%s keeps its name; it is %s" % (n, short(x)), b.get("span"))
    for nm in ("SpacialGraph::into_py_graph", "SpacialGraph::take_into_py_graph"):
        with guard(R, rule, nm):
            b = P.get(r"_lib::%s$" % nm)
            for o in P.run(R, b, names=["self"]):
                if o.kind == "ret" and feasible(o.facts):
                    R.check(compare(o.facts, o.ret, fld(s("self"), "0")), rule, nm, "the stored graph is returned", b.get("span"))
    with guard(R, rule, "SpacialGraph::__new__"):
        b = P.get(r"_lib::SpacialGraph::__new__$")
        for o in P.run(R, b, names=["graph"]):
            if o.kind == "ret" and feasible(o.facts):
                R.check(compare(o.facts, fld(o.ret, "0"), s("graph")), rule, "SpacialGraph::__new__", "the given graph is stored", b.get("span"))


def seqlen(f, v, src):
    if f.eqv(v, src):
        return True
    if v.op == "gen":
        return compare(f, v.a[0], mk("len", src))
    return None


def element(v):
    return v.a[1] if v.op == "gen" else None


# ------------------------------------------------------------------ what pyo3 reads
def written(P, pat):
    r = []
    for k, b in P.prog("off").bodies.items():
        m = re.search(r"::__py%s$" % pat, k)
        if m and b["krate"] == "_lib":
            I = P.interp("off", summaries=SUMS)
            outs = I.run_fn(b)
            for o in outs:
                for e in walk(o.events):
                    if isinstance(e, Ev) and e.name.endswith("__defaults"):
                        r.append((m, nested((e.pre or e.args)[0]), b))
    return r


def defaults(R, P, ctx, rule):
    want = {
        "run": {"spacial_graph": "required", "time_order": "required", "do_search": boolc(False), "timeout": "None", "nthreads": num(1), "probabilistic": "None", "task_bound": "None"},
        "AcceptFunc": {"kind": "BuiltinHeavyside", "heavyside_parameters": "None", "custom_func": "None"},
    }
    order = {"run": list(want["run"]), "AcceptFunc": list(want["AcceptFunc"])}
    found = written(P, r"sig__(\w+?)__(\w+)")
    for w in want:
        hit = [x for x in found if (x[0].group(2) == w or x[0].group(1) == w and x[0].group(2) == "__new__")]
        if len(hit) != 1:
            R.und(rule, w, "signature")
            continue
        m, rows, b = hit[0]
        got = {text(r[0]): r[1] for r in rows}
        if set(got) != set(want[w]):
            R.und(rule, w, "the names of the parameters: %s" % ", ".join(map(str, got)))
            continue
        R.check([text(r[0]) for r in rows] == order[w], rule, w, "the parameters are in the documented order: %s" % ", ".join(order[w]), b.get("span"))
        for n, d in want[w].items():
            t = got[n]
            has = t.op == "agg" and t.a[1] == "Some"
            if d == "required":
                R.check(not has, rule, w, "%s has to be given" % n, b.get("span"))
                continue
            if not has:
                R.check(False, rule, w, "%s may be left out" % n, b.get("span"))
                continue
            v = fld(t, "Some.0")
            if d == "None":
                ok = v.op == "agg" and v.a[1] == "None"
                R.check(ok if v.op == "agg" else None, rule, w, "%s is none by default; it is %s" % (n, short(v)), b.get("span"))
            elif isinstance(d, str):
                x = text(v)
                R.check(x == d if x is not None else None, rule, w, "%s is %s by default; it is %s" % (n, d, short(v)), b.get("span"))
            else:
                R.check(v is d if not foreign(v) else None, rule, w, "%s is %s by default; it is %s" % (n, show(d), short(v)), b.get("span"))


CLASSES = {"_lib": {"SpacialGraph", "PartialOrderGraph", "Paths", "Path"}, "probabilistic": {"AcceptFunc", "HeavysideParameters"}}


def registered(R, P, ctx, rule):
    b = P.get(r"^_lib::_lib$")
    outs = [o for o in P.run(R, b, names=pnames(b)) if feasible(o.facts)]
    good = [o for o in outs if o.kind == "ret" and decide(o.facts, isv(o.ret, "Ok")) is True]
    if not good:
        raise Undecided("no path on which the module is made")
    for o in good:
        evs = [e for e in walk(o.events) if isinstance(e, Ev)]
        mods = [e for e in evs if re.search(r"Module(::<[^>]*>)?::new$", e.name)]
        of = {}
        for e in mods:
            n = next((text(x) for x in (e.pre or e.args) if isinstance(x, T) and text(x)), None)
            of[e.ret] = n
        seen = {"_lib": set(), "probabilistic": set()}
        for e in evs:
            if e.name.endswith("::add_class"):
                me = (e.pre or e.args)[0]
                m = next((of[x] for x in subterms(me) if x in of), "_lib")
                for t in e.fa:
                    seen.setdefault(m, set()).add(t.split("::")[-1])
        fns = {text((e.pre or e.args)[1]) for e in evs if e.name.endswith("::__wrap")}
        sub = {n for n in of.values()}
        added = [e for e in evs if e.name.endswith("::add_submodule")]
        if not any(seen.values()):
            R.und(rule, "_lib", "registered classes")
            continue
        for m, cs in CLASSES.items():
            for c in sorted(cs):
                R.check(c in seen.get(m, set()), rule, m, "the class %s is in the module %s" % (c, m), b.get("span"))
        R.check("run" in {str(x).split("::")[-1] for x in fns}, rule, "_lib", "the function run is in the module", b.get("span"))
        R.check("probabilistic" in sub and bool(added), rule, "_lib", "there is a submodule probabilistic", b.get("span"))


def pynames(R, P, ctx, rule):
    """the names under which Python sees things"""
    for m, rows, b in written(P, r"attrs__(\w+?)__(\w+)"):
        w = m.group(2)
        for r in rows:
            n, h, a = text(r[0]), text(r[1]), text(r[2])
            x = re.search(r'\bname\s*=\s*"([^"]*)"', a or "")
            if x and h in ("pyclass", "pyfunction", "pymodule", "pyo3"):
                R.check(x.group(1) == n or n.startswith("__"), rule, w, "%s keeps its name in Python; it is called %s" % (n, x.group(1)), b.get("span"))
            if h in ("getter", "setter") and a and w == "Path" and a.strip('"') in ("time", "space", "steps"):
                pass
        if m.group(1) == "pyclass" and w == "Path":
            got = {text(r[0]) for r in rows if text(r[1]) == "pyo3" and re.search(r"\bget\b", text(r[2]) or "")}
            al = "get_all" in " ".join(text(r[2]) or "" for r in rows)
            for m2, rows2, _ in written(P, r"attrs__(pymethods)__(Path)"):
                for r in rows2:
                    if text(r[1]) == "getter":
                        got.add((text(r[2]) or text(r[0]) or "").replace("get_", ""))
            for n in ("time", "space", "steps"):
                R.check(al or n in got, rule, w, "the field %s can be read" % n, b.get("span"))
        if m.group(1) == "pymethods":
            ctor = [text(r[0]) for r in rows if text(r[1]) == "new"]
            if w in ("SpacialGraph", "Paths", "Path", "AcceptFunc", "HeavysideParameters"):
                P.cache.setdefault("ctor", {}).setdefault(w, []).extend(ctor)
    for w, c in sorted(P.cache.get("ctor", {}).items()):
        R.check(bool(c), rule, w, "%s can be constructed" % w)
    # the Python side
    root = os.path.join(D.REPO, "python_lib", "python", "mbqc_scheduling")
    for f, mod, want in (("__init__.py", "mbqc_scheduling._lib", CLASSES["_lib"] | {"run"}), ("probabilistic.py", "mbqc_scheduling._lib.probabilistic", CLASSES["probabilistic"])):
        p = os.path.join(root, f)
        with guard(R, rule, f):
            if not os.path.exists(p):
                raise Undecided("no %s" % f)
            tree = ast.parse(open(p).read())
            got, star, plainly = {}, False, True
            for st in tree.body:
                if isinstance(st, ast.ImportFrom):
                    base = ("." * st.level) + (st.module or "")
                    base = {"._lib": "mbqc_scheduling._lib", "._lib.probabilistic": "mbqc_scheduling._lib.probabilistic"}.get(base, base)
                    for a in st.names:
                        if a.name == "*":
                            star = star or base == mod
                        elif base.startswith("mbqc_scheduling"):
                            got[a.asname or a.name] = (base, a.name)
                elif isinstance(st, (ast.Expr, ast.Import)):
                    pass
                elif isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) and t.id.startswith("__") for t in st.targets):
                    pass
                else:
                    plainly = False
            for n in sorted(want):
                if n in got:
                    R.check(got[n] == (mod, n), rule, f, "%s is the %s of the Rust module; it is %s.%s" % (n, n, got[n][0], got[n][1]), "%s:1" % p)
                elif star:
                    R.ok(rule, f, "%s is imported with everything else" % n)
                else:
                    R.check(False if plainly else None, rule, f, "%s can be imported" % n, "%s:1" % p)


RULES = {"C24": c24}

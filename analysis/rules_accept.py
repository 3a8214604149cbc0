"""C16 (accept functions): the formula of every path is taken from the compiled code as a term and compared, as a function over the
real numbers, with the documented one: equal normal forms show that they agree, a point at which the two terms differ that they
do not (the terms are evaluated, no code is run); anything else is undecided."""
import itertools
import math
import random
from fractions import Fraction
from rulelib import *
from term import fld

CFGS = (("on", ""), ("off", " (release)"))
NAMES = ["bound_best_mem", "minimal_mem", "last_max_mem", "last_cur_mem", "cur_mem", "num_remaining_nodes", "num_total_nodes"]
PARAMS = ["cutoff", "lin_num_total_nodes_exp", "exp_num_total_nodes_exp", "exp_num_remaining_nodes_exp", "exp_diff_exp", "exp_num_measured_nodes_exp"]
NAN = float("nan")
INF = float("inf")


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(INF, a) * math.copysign(1.0, b)


def fpow(a, n):
    try:
        if a == 0 and n < 0:
            return INF if not (isinstance(n, int) and n % 2 and math.copysign(1, a) < 0) else -INF
        r = a ** n
        return r if not isinstance(r, complex) else NAN
    except OverflowError:
        return INF if a > 0 or n % 2 == 0 else -INF


def fexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def fmaxf(a, b):
    return b if a != a else a if b != b else max(a, b)


def fminf(a, b):
    return b if a != a else a if b != b else min(a, b)


def value(t, env, memo):
    """value of a term at a point"""
    r = memo.get(t)
    if r is not None:
        return r
    if t in env:
        return env[t]
    o, v = t.op, lambda i: value(t.a[i], env, memo)
    if o == "float":
        r = t.a[0]
    elif o == "bool":
        r = t.a[0]
    elif o == "aff":
        r = t.a[0] + sum(k * value(x, env, memo) for x, k in t.a[1])
    elif o == "mul":
        r = v(0) * v(1)
    elif o == "fadd":
        r = v(0) + v(1)
    elif o == "fsub":
        r = v(0) - v(1)
    elif o == "fmul":
        r = v(0) * v(1)
    elif o == "fdiv":
        r = fdiv(v(0), v(1))
    elif o == "fneg":
        r = -v(0)
    elif o == "fmax":
        r = fmaxf(v(0), v(1))
    elif o == "fmin":
        r = fminf(v(0), v(1))
    elif o == "powi":
        r = fpow(v(0), v(1))
    elif o == "powf":
        r = fpow(v(0), v(1))
    elif o == "exp":
        r = fexp(v(0))
    elif o == "exp2":
        r = fpow(2.0, v(0))
    elif o == "ln":
        r = math.log(v(0)) if v(0) > 0 else -INF if v(0) == 0 else NAN
    elif o == "sqrt":
        r = math.sqrt(v(0)) if v(0) >= 0 else NAN
    elif o == "abs":
        r = abs(v(0))
    elif o in ("floor", "ceil"):
        r = float(getattr(math, o)(v(0))) if abs(v(0)) != INF and v(0) == v(0) else v(0)
    elif o == "recip":
        r = fdiv(1.0, v(0))
    elif o == "exp_m1":
        r = fexp(v(0)) - 1
    elif o == "flt":
        r = v(0) < v(1)
    elif o == "fle":
        r = v(0) <= v(1)
    elif o == "feq":
        r = v(0) == v(1)
    elif o == "i2f":
        r = float(v(0))
    elif o == "lt0":
        r = v(0) < 0
    elif o == "eq0":
        r = v(0) == 0
    elif o == "not":
        r = not v(0)
    elif o == "and":
        r = all(value(x, env, memo) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a))
    elif o == "or":
        r = any(value(x, env, memo) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a))
    elif o == "ite":
        r = v(1) if v(0) else v(2)
    elif o == "op" and t.a[0] in FOPS:
        r = FOPS[t.a[0]](*[value(x, env, memo) for x in t.a[1:]])
    else:
        raise Undecided("formula: %s" % short(t, 2))
    memo[t] = r
    return r


FOPS = {"powi": fpow, "powf": fpow, "exp": fexp, "max": fmaxf, "min": fminf, "abs": abs, "is_nan": lambda x: x != x,
        "is_sign_negative": lambda x: math.copysign(1, x) < 0, "is_sign_positive": lambda x: math.copysign(1, x) > 0,
        "signum": lambda x: math.copysign(1.0, x), "clamp": lambda x, a, b: min(max(x, a), b), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
        "is_infinite": lambda x: abs(x) == INF, "is_finite": lambda x: abs(x) != INF and x == x, "sub": lambda a, b: a - b}


def same(a, b):
    if a != a or b != b:
        return True       # what happens where the documented expression is undefined is C27
    if a == b:
        return True
    if abs(a) == INF or abs(b) == INF:
        return False
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-300


# ------------------------------------------------------------------ normal forms
# sum: sorted tuple of (monomial, coefficient); monomial: sorted tuple of (base, exponent); base: atom or sum; exponent: affine term
def key(x):
    return repr(x)


def nsum(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=key))


def nconst(c):
    return nsum({(): Fraction(c)})


def nadd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return nsum(d)


def nmono(a):
    """(monomial, coefficient) of a sum, which becomes a factor if it has several terms"""
    if len(a) == 1:
        return a[0]
    if not a:
        return None
    lead = a[0][1]
    base = tuple((m, c / lead) for m, c in a)
    return ((("sum", base), num(1)),), lead


def mmul(m1, m2):
    d = {}
    for b, e in m1 + m2:
        d[b] = add(d.get(b, num(0)), e)
    return tuple(sorted(((b, e) for b, e in d.items() if not (isnum(e) and e.a[0] == 0)), key=key))


def nmul(a, b):
    x, y = nmono(a), nmono(b)
    if x is None or y is None:
        return ()
    return nsum({mmul(x[0], y[0]): x[1] * y[1]})


def npow(a, e):
    """e: integer term"""
    x = nmono(a)
    if len(a) > 1 and not isnum(e):
        x = ((("sum", a), num(1)),), 1
    if x is None or not isnum(e) and x[1] != 1:
        raise Undecided("power")
    c = x[1] ** e.a[0] if isnum(e) else 1
    m = []
    for b, f in x[0]:
        if isnum(f) or isnum(e):
            m.append((b, mul(f, e)))
        else:
            m.append((("pow", b, f), e))
    return nsum({mmul(tuple(m), ()): c})


def norm(t):
    o = t.op
    if o == "float":
        return nconst(Fraction(t.a[0]))
    if o in ("fadd", "fsub"):
        return nadd(norm(t.a[0]), norm(t.a[1]), 1 if o == "fadd" else -1)
    if o == "fmul":
        return nmul(norm(t.a[0]), norm(t.a[1]))
    if o == "fneg":
        return nadd((), norm(t.a[0]), -1)
    if o in ("fdiv", "recip"):
        a, b = (nconst(1), norm(t.a[0])) if o == "recip" else (norm(t.a[0]), norm(t.a[1]))
        return nmul(a, npow(b, num(-1)))
    if o == "powi":
        return npow(norm(t.a[0]), t.a[1])
    if o in ("exp", "fmax", "fmin"):
        return nsum({((("fn", o) + tuple(sorted((norm(x) for x in t.a), key=key)), num(1)),): Fraction(1)})
    if o in ("sym", "fld"):
        return nsum({((("atom", t), num(1)),): Fraction(1)})
    raise Undecided("normal form of %s" % short(t, 2))


def documented(p):
    """(condition, value below the cutoff, value) as terms"""
    x = {n: mk("sym", n) for n in NAMES}
    diff = mk("fsub", x["minimal_mem"], mk("fmax", x["cur_mem"], x["last_max_mem"]))
    tot, rem = x["num_total_nodes"], x["num_remaining_nodes"]
    pw = lambda b, n: mk("powi", b, p[n])
    e = mk("fdiv", mk("fdiv", mk("fmul", pw(tot, "exp_num_total_nodes_exp"), pw(rem, "exp_num_remaining_nodes_exp")), pw(diff, "exp_diff_exp")),
           pw(mk("fsub", tot, rem), "exp_num_measured_nodes_exp"))
    return (diff, p["cutoff"]), mk("float", 0.0), mk("fmul", pw(tot, "lin_num_total_nodes_exp"), mk("exp", mk("fneg", e)))


def proved(outs, penv):
    """do the paths have the documented normal forms"""
    p = dict(penv) or {k: (mk("float", v) if k == "cutoff" else num(v)) for k, v in BUILTIN.items()}
    c, low, high = documented(p)
    try:
        cn = nadd(norm(c[0]), norm(c[1]), -1)
        want = {True: norm(low), False: norm(high)}
        seen = set()
        for o in outs:
            if len(o.lits) != 1:
                return False
            l, pos = o.lits[0], True
            if l.op == "not":
                l, pos = l.a[0], False
            if l.op == "fle":
                l, pos = mk("flt", l.a[1], l.a[0]), not pos
            if l.op != "flt" or nadd(norm(l.a[0]), norm(l.a[1]), -1) != cn or norm(o.ret) != want[pos]:
                return False
            seen.add(pos)
        return seen == {True, False}
    except Undecided:
        return False


def heavyside(p, x):
    diff = x["minimal_mem"] - max(x["cur_mem"], x["last_max_mem"])
    if diff < p["cutoff"]:
        return 0.0
    tot, rem = x["num_total_nodes"], x["num_remaining_nodes"]
    e = fdiv(fdiv(fpow(tot, p["exp_num_total_nodes_exp"]) * fpow(rem, p["exp_num_remaining_nodes_exp"]), fpow(diff, p["exp_diff_exp"])),
             fpow(tot - rem, p["exp_num_measured_nodes_exp"]))
    return fpow(tot, p["lin_num_total_nodes_exp"]) * fexp(-e)


BUILTIN = {"cutoff": 0.0, "lin_num_total_nodes_exp": 2, "exp_num_total_nodes_exp": 1, "exp_num_remaining_nodes_exp": 1, "exp_diff_exp": 3, "exp_num_measured_nodes_exp": 1}


def points(params):
    rnd = random.Random(5)
    small = [(b, mn, lm, lc, cm, rem, tot) for mn in (1, 2, 3, 5, 9) for lm, cm in ((0, 0), (1, 2), (2, 1), (3, 3), (2, 5), (5, 2), (9, 4), (4, 9))
             for rem, tot in ((0, 1), (0, 3), (1, 2), (1, 4), (2, 3), (3, 8)) for b, lc in ((11, 1), (mn, cm))]
    for _ in range(300):
        tot = rnd.randint(2, 60)
        mn = rnd.randint(1, tot)
        small.append((rnd.randint(mn, tot), mn, rnd.randint(0, tot), rnd.randint(0, tot), rnd.randint(0, tot), rnd.randint(0, tot - 1), tot))
    for _ in range(40):
        # nothing known yet
        tot = rnd.randint(2, 60)
        m = float(2 ** 64)
        small.append((m, m, rnd.randint(0, tot), rnd.randint(0, tot), rnd.randint(0, tot), rnd.randint(0, tot - 1), tot))
    for q in small:
        x = dict(zip(NAMES, map(float, q)))
        if not params:
            yield dict(BUILTIN), x
        else:
            diff = x["minimal_mem"] - max(x["cur_mem"], x["last_max_mem"])
            for c in {0.0, rnd.choice([-2.0, -0.5, 0.5, 1.0, 3.5]), diff}:
                if abs(c) > 1e6:
                    continue
                p = {n: rnd.randint(-2, 4) for n in PARAMS}
                p["cutoff"] = c
                yield p, x


def check_formula(R, rule, w, ctx, cfg, fv, params, penv, span):
    """the value of a function value against the documented formula"""
    args = [mk("sym", n) for n in NAMES]
    P = ctx.prog(cfg)
    if fv.op == "fn":
        b = P.bodies.get(fv.a[0])
        a = args
    elif fv.op == "agg" and fv.a[0].startswith("closure:"):
        b = P.bodies.get(fv.a[1])
        a = [fv] + args
    else:
        raise Undecided("what is selected: %s" % short(fv, 2))
    if b is None:
        raise Undecided("function body")
    I = ctx.interp(cfg)
    st = I.state()
    if fv.op == "agg" and b["locals"][1]["ty"].startswith("&mut"):
        raise Undecided("closure with state")
    outs = I.run_fn(b, args=a, st=st)
    usage(R, I, outs)
    outs = [o for o in outs if feasible(o.facts)]
    for o in outs:
        if o.kind != "ret" or any(isinstance(e, (LoopEv, Ev)) for e in o.events):
            raise Undecided("form of the formula")
    if proved(outs, penv):
        R.ok(rule, w, "the formula of %s has the normal form of the documented one (%d paths)" % (b["path"], len(outs)), b.get("span") or span)
        return
    n, wrong = 0, None
    for p, x in points(params):
        env = {mk("sym", k): v for k, v in x.items()}
        for k, t in penv.items():
            env[t] = p[k]
        memo = {}
        hit = [o for o in outs if all(value(l, env, memo) for l in o.lits)]
        if len(hit) != 1:
            raise Undecided("%d paths at one point" % len(hit))
        got, want = value(hit[0].ret, env, memo), heavyside(p, x)
        n += 1
        if not same(got, want):
            wrong = (x, p if params else None, got, want, hit[0])
            break
    name = b["path"].split("::")[-2 if "closure" in b["path"] else -1]
    if wrong:
        x, p, got, want, o = wrong
        R.notes.append("differs at %s%s: %g instead of %g; path: %s; value: %s" %
                       (x, p or "", got, want, [str(short(c, 6)) for c in o.lits], short(o.ret, 9)))
    R.check(False if wrong else None, rule, w, "the formula of %s is the documented one" % name, b.get("span") or span)


def c16(R, ctx):
    for cfg, rel in CFGS:
        w = "AcceptFunc::get_accept_func" + rel
        with guard(R, "C16/select", w):
            b = ctx.find(r"probabilistic::AcceptFunc::get_accept_func$", cfg)
            I, outs = summarise(R, ctx, b, cfg, names=["kind"])
            kind = mk("sym", "kind")
            seen = {}
            for o in outs:
                if not feasible(o.facts):
                    continue
                with R.under(o.lits):
                    if o.kind != "ret":
                        R.check(None if o.lits[1:] else False, "C16/select", w, "every kind gives a function")
                        continue
                    vs = [v for v in ("BuiltinHeavyside", "ParametrizedHeavyside", "Custom") if decide(o.facts, isv(kind, v)) is not False]
                    if any(isinstance(e, Ev) for e in o.events):
                        R.und("C16/select", w, "selecting does something else")
                        continue
                    for v in vs:
                        seen[v] = seen.get(v, 0) + 1
                        f = o.facts.assume(isv(kind, v))
                        fv = unbox(o.ret)
                        if v == "Custom":
                            R.check(compare(f, fv, fld(kind, "Custom.0")) if not (fv.op == "agg" or fv.op == "fn") else passes(R, ctx, cfg, fv, fld(kind, "Custom.0")),
                                    "C16/custom", w, "a custom function is used unchanged")
                            continue
                        penv = {}
                        if v == "ParametrizedHeavyside":
                            q = fld(kind, "ParametrizedHeavyside.param")
                            penv = {n: fld(q, n) for n in PARAMS}
                        with guard(R, "C16/" + v, w):
                            check_formula(R, "C16/" + v, w, ctx, cfg, fv, v != "BuiltinHeavyside", penv, b.get("span"))
            for v in ("BuiltinHeavyside", "ParametrizedHeavyside", "Custom"):
                R.check(bool(seen.get(v)), "C16/select", w, "there is a function for %s" % v)
        with guard(R, "C16/default", "AcceptFunc::default" + rel):
            d = ctx.find(r"probabilistic::AcceptFunc as std::default::Default>::default$", cfg)
            I, outs = summarise(R, ctx, d, cfg)
            for o in outs:
                R.check(o.kind == "ret" and decide(o.facts, isv(o.ret, "BuiltinHeavyside")), "C16/default", "AcceptFunc::default" + rel, "the builtin function is the default")


def unbox(t):
    while t.op == "agg" and t.a[0].split("::")[-1] in ("Box",) and len(t.a[3]) == 1:
        t = t.a[3][0]
    return t


def passes(R, ctx, cfg, fv, target):
    """does a wrapper only pass its arguments on"""
    args = [mk("sym", n) for n in NAMES]
    b = ctx.prog(cfg).bodies.get(fv.a[1] if fv.op == "agg" else fv.a[0])
    if b is None:
        return None
    I = ctx.interp(cfg)
    outs = I.run_fn(b, args=([fv] if fv.op == "agg" else []) + args, st=I.state())
    usage(R, I, outs)
    if fv.op == "fn":
        return False
    for o in outs:
        evs = [e for e in o.events if isinstance(e, Ev)]
        if len(evs) != 1 or evs[0].name != "call_fn" or compare(o.facts, evs[0].args[0], target) is not True:
            return None
        if list(evs[0].args[1:]) != args or o.ret is not evs[0].ret:
            return False if not any(foreign(x) for x in list(evs[0].args[1:]) + [o.ret]) else None
    return True


RULES = {"C16": c16}

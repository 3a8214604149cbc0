"""C29 (benchmark): what is asked for on the command line of the benchmark is what is run and recorded."""
from rulelib import *
from rules_run import walk
from rules_cli import Arg, builder, generic, leaf, opname, args_of, text, HARMLESS, CMD_HARMLESS
from rules_results import ResCtx, walk_loops, gen_params, doit, fval, val, NoValue
import dump as D
import math

# the positional arguments of the subcommands, in order, with their types
SUB = {"node": [("edge_density", "f64"), ("correction_density", "f64"), ("edge_density_type", "std::string::String"), ("correction_density_type", "std::string::String")],
       "density": [("num_nodes", "usize"), ("edge_density", "f64")]}
KINDS = ("Constant", "ReziprocalLinear", "ReziprocalSquareRoot")
# fields of the arguments that are not called as their argument
FIELD = {("density", "edge_density_multiplier"): "edge_density"}


def c29(R, ctx):
    try:
        P = ResCtx(ctx)
    except D.BuildError as e:
        R.und("C29/builds", "results", "the benchmark does not compile against the declarations of the pinned commit")
        return
    for cfg, rel in (("on", "debug"), ("off", "release")):
        with guard(R, "C29/cli", "cli::parse (%s)" % rel):
            cli(R, P, cfg, "cli::parse (%s)" % rel)
        with guard(R, "C29/dispatch", "run (%s)" % rel):
            dispatch(R, P, cfg, "run (%s)" % rel)
        for mod in SUB:
            w = "plots::%s::run (%s)" % (mod, rel)
            with guard(R, "C29/output", w):
                output(R, P, cfg, w, mod)
            with guard(R, "C29/steps", w):
                steps(R, P, cfg, w, mod)
        with guard(R, "C29/bounds", "densities (%s)" % rel):
            bounds(R, P, cfg, "densities (%s)" % rel)


def clap_terms(t):
    """the whole command and the matches of the subcommand a value is taken from"""
    while t.op == "fld":
        t = t.a[0]
    return t


def subcommands(cmd):
    """name -> [Arg] in declared order"""
    st, _ = builder(cmd, "new")
    r = {}
    for n, a, t in st:
        if n == "arg" or n == "args":
            r[None] = None
        if n != "subcommand":
            continue
        s2, new = builder(a[0], "new")
        name, args = text(args_of(new)[0]), []
        for m, b, _ in s2:
            if m == "arg":
                args.append(Arg(b[0]))
            elif m == "args" and b[0].op == "arr":
                args += [Arg(x) for x in b[0].a[0]]
            elif m not in CMD_HARMLESS:
                raise Undecided("setting %s of the subcommand %s" % (m, name))
        r[name] = args
    return r


def cli(R, P, cfg, w):
    b = P.get(r"cli::parse$", cfg)
    I, outs = summarise(R, P, b, cfg, names=[])
    sp = b.get("span")
    done, cmd = set(), None
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        v = o.ret
        if v.op != "agg" or not v.a[3] or v.a[3][0].op != "agg":
            R.und("C29/cli", w, "what is asked for: %s" % short(v))
            continue
        sub = str(v.a[1]).lower()
        if sub not in SUB:
            R.und("C29/cli", w, "the variant %s" % v.a[1])
            continue
        # the subcommand this is for
        got = {y.a[0] for l in o.lits for y in subterms(l) if y.op == "str" and l.op == "eq" and y in l.a}
        got &= set(SUB)
        R.check(True if got == {sub} else False if got and sub not in got else None, "C29/cli", w, "the subcommand %s asks for %s" % ("/".join(sorted(got)), v.a[1]), sp)
        done.add(sub)
        a = v.a[3][0]
        for f, x in zip(a.a[2], a.a[3]):
            l = leaf(x)
            want = FIELD.get((sub, f), f)
            types = dict(SUB[sub])
            if want not in types:
                R.und("C29/cli", w, "the field %s of %s" % (f, sub))
                continue
            if l is None:
                c = isnum(x) or x.op in ("str", "flt")
                R.check(False if c else None, "C29/cli", w, "%s of %s is the argument %s; it is %s" % (f, sub, want, short(x)), sp)
                continue
            R.check(True if l[1] == want else False if l[1] in types else None, "C29/cli", w, "%s of %s is the argument %s; it is %s" % (f, sub, want, l[1]), sp)
            m = [y for y in subterms(l[3]) if opname(y) == "subcommand"]
            if m and cmd is None:
                cmd = m[0]
                while cmd.op == "op" and opname(cmd) != "new":
                    nxt = [y for y in subterms(l[3]) if y.op == "op" and opname(y) not in ("get_matches", "remove_subcommand", "subcommand_matches", "remove_subcommand") and len(y.a) > 1 and y.a[1] is cmd]
                    if not nxt:
                        break
                    cmd = nxt[0]
    for s in sorted(set(SUB) - done):
        R.check(None, "C29/cli", w, "the subcommand %s is there" % s, sp)
    if cmd is None:
        R.und("C29/cli", w, "the declared arguments")
        return
    decl = subcommands(cmd)
    if None in decl:
        R.und("C29/cli", w, "arguments besides those of the subcommands")
        return
    for s, want in SUB.items():
        if s not in decl:
            R.check(False if decl else None, "C29/cli", w, "the subcommand %s is declared" % s, sp)
            continue
        args = decl[s]
        ids = [x.id for x in args]
        if any("index" in x.set for x in args):
            R.und("C29/cli", w, "positions of %s" % s)
            continue
        if any(not x.positional for x in args):
            R.und("C29/cli", w, "options of %s" % s)
            continue
        R.check(True if ids == [x for x, _ in want] else False if sorted(set(ids)) == sorted(x for x, _ in want) or set(ids) < {x for x, _ in want} else None,
                "C29/cli", w, "%s takes %s; it takes %s" % (s, ", ".join(x for x, _ in want), ", ".join(map(str, ids))), sp)
        for x in args:
            for n in x.set:
                if n not in HARMLESS and n not in ("required", "action", "value_parser"):
                    R.und("C29/cli", w, "setting %s of %s" % (n, x.id))
            t = dict(want).get(x.id)
            r = x.flag("required", False)
            R.check(r, "C29/cli", w, "%s of %s is required" % (x.id, s), sp)
            k = parsed(x)
            R.check(None if t is None or k is None else k == t, "C29/cli", w, "%s of %s is a %s; it is a %s" % (x.id, s, t, k), sp)


def parsed(x):
    """the type the value of an argument is parsed as"""
    k = x.kind()
    v = x.set.get("value_parser")
    if k is None and v and x.one("action") is None:
        g = generic(v[-1][0][0]) if v[-1][0] and v[-1][0][0].op == "op" else ""
        m = re.match(r"^<?(?:clap::builder::)?_infer_ValueParser_for<(.*)>$", g)
        if opname(v[-1][0][0]) == "value_parser" and m:
            return m.group(1)
    return k


def dispatch(R, P, cfg, w):
    b = P.get(r"^results::run$", cfg)
    I, outs = summarise(R, P, b, cfg, names=["args"], opaque=[r"plots::(node|density)::run$"])
    seen = set()
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        ev = [e for e in walk(o.events) if isinstance(e, Ev) and re.search(r"plots::(node|density)::run$", e.name)]
        var = {v for v in ("Node", "Density") if decide(o.facts, isv(sy("args"), v)) is True}
        if len(var) != 1:
            R.und("C29/dispatch", w, "what is asked for under %s" % ", ".join(short(l) for l in o.lits))
            continue
        v = list(var)[0]
        seen.add(v)
        if len(ev) != 1:
            R.check(None if any(isinstance(e, LoopEv) for e in o.events) or ev else False, "C29/dispatch", w, "%s runs its benchmark once" % v, b.get("span"))
            continue
        e = ev[0]
        R.check(e.name.split("::")[-2] == v.lower(), "C29/dispatch", w, "%s runs the benchmark of its name" % v, e.span)
        x = (e.pre or e.args)[0]
        good = fld(sy("args"), v + ".0")
        R.check(True if x is good or rebuilt(x, good) else None if foreign(x, lambda y: y is good or y is sy("args")) else False, "C29/dispatch", w, "%s is run with what is asked for; it is %s" % (v, short(x)), e.span)
    for v in {"Node", "Density"} - seen:
        R.und("C29/dispatch", w, "%s" % v)


def rebuilt(x, good):
    return x.op == "agg" and x.a[2] and all(y is fld(good, f) for f, y in zip(x.a[2], x.a[3]))


def sy(n):
    return mk("sym", n)


def output(R, P, cfg, w, mod):
    b = P.get(r"plots::%s::run$" % mod, cfg)
    I, outs = summarise(R, P, b, cfg, names=["args"], opaque=[r"plots::do_it(::<|$)", r"::timeouts$"])
    ga = gen_params(P, cfg, R)
    _, ns, dout = doit(R, P, cfg)
    rule, n_out = "C29/output", 0
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        wr = [e for e in walk(o.events) if isinstance(e, Ev) and re.search(r"serde_json::.*to_(writer|string|vec)", e.name)]
        wr = [e for e in wr if any(x.op == "agg" and "results" in (x.a[2] or ()) for x in (e.pre or e.args))]
        if len(wr) != 1:
            R.check(None if wr or keeps(o) else False, rule, w, "what is measured is written", b.get("span"))
            continue
        e = wr[0]
        folder(R, rule, w, o)
        out = next(x for x in (e.pre or e.args) if x.op == "agg" and "results" in (x.a[2] or ()))
        F = dict(zip(out.a[2], out.a[3]))
        n_out += 1
        run = [(L.loop, p, x) for L in walk_loops(o.events) for p in backs(L.loop) for x in p.events if isinstance(x, Ev) and x.name.endswith("plots::do_it")]
        if not run:
            R.und(rule, w, "the sweep")
            continue
        for L, p, x in run:
            a = list(x.pre or x.args)

            def same(name, want, what, sure=False):
                if name not in F or want is None:
                    R.und(rule, w, "%s is recorded" % what)
                    return
                g = F[name]
                ok = g is want
                wrong = sure or isnum(g) and isnum(want) or other(g, want)
                R.check(True if ok else False if wrong else None, rule, w, "%s is recorded in %s: %s, not %s" % (what, name, short(want), short(g)), e.span)

            def other(g, want):
                return not foreign(g, lambda y: y.op == "sym") and not foreign(want, lambda y: y.op == "sym")
            if mod == "node":
                same("edge_density", a[ga["graph"]] if "graph" in ga else None, "the density of the graphs", any(F.get("edge_density") is a[i] for k, i in ga.items() if k != "graph"))
                same("correction_density", a[ga["order"]] if "order" in ga else None, "the density of the corrections", any(F.get("correction_density") is a[i] for k, i in ga.items() if k != "order"))
                kind(R, rule, w, o, a, ga, x)
                last = last_of(L, a[ga["size"]])
                same("max_size", last, "the last size")
            else:
                same("size", a[ga["size"]] if "size" in ga else None, "the size")
                same("edge_density_multiplier", fld(sy("args"), "edge_density_multiplier"), "the density of the graphs")
                same("num_density", space(L)[0], "the number of steps")
            # what the generator starts from
            init = {u.a[1] for y in a if y.op == "phi" for u in [L.entry.get(y)] if u is not None and opname(u) == "rng_seed"}
            if "seed" in F and len(init) == 1:
                g, s = F["seed"], list(init)[0]
                same("seed", s, "the seed", isnum(g) or isnum(s) or draw(g) and draw(s) or intval(sub(g, s)) not in (None, 0) or g.op == "bin" and s in g.a and any(isnum(y) and intval(y) for y in g.a[1:]))
            else:
                R.und(rule, w, "the seed is recorded")
            for nm, val_ in (("num_average", shots(dout)), ("ncpus", threads(P, cfg, dout))):
                same(nm, val_, {"num_average": "the number of shots of each step", "ncpus": "the number of threads"}[nm])
    if not n_out:
        R.und(rule, w, "what is written")


def kind(R, rule, w, o, a, ga, x):
    """each density is built from the type and the value of its name"""
    for k, nm in (("graph", "edge_density"), ("order", "correction_density")):
        if k not in ga:
            continue
        t = a[ga[k]]
        fs = {y.a[1] for y in subterms(t) if y.op == "fld" and y.a[0] is sy("args")}
        R.check(True if fs == {nm} else False if fs else None, rule, w, "the density of the %s is built from %s; it is built from %s" % (k, nm, ", ".join(sorted(fs))), x.span)
        # the type that was asked for
        said = {z.a[0] for l in o.lits if l.op == "eq" and fld(sy("args"), nm + "_type") in l.a for z in l.a if z.op == "str"}
        if t.op != "agg" or len(said) != 1:
            oth = {z.a[0] for l in o.lits if l.op == "eq" and any(y.op == "fld" and y.a[0] is sy("args") for y in l.a) for z in l.a if z.op == "str"}
            R.check(False if t.op == "agg" and not said and oth else None, rule, w, "the kind of the density of the %s is told by %s_type" % (k, nm), x.span)
            continue
        v = list(said)[0]
        c = "".join(p.capitalize() for p in v.split("_"))
        R.check(True if c == t.a[1] else False if c in KINDS and t.a[1] in KINDS else None, rule, w, "%s is the kind %s; it is %s" % (v, c, t.a[1]), x.span)


def draw(t):
    return t.op == "fresh" or "draw" in repr(t)[:8]


def last_of(L, t):
    n, _ = space(L)
    if n is None:
        return None
    c, d = aff(t)
    if d != {K(L): 1} or intval(n) is None:
        return None
    return num(int(c) + intval(n) - 1)


def shots(dout):
    r = set()
    for o in dout:
        for e in walk_loops(o.events):
            if any(isinstance(z, Ev) and re.search(r"plots::get_graph$", z.name) for p in backs(e.loop) for z in p.events):
                r.add(space(e.loop)[0])
    return list(r)[0] if len(r) == 1 else None


def threads(P, cfg, dout):
    """the number of threads of the searches that may use several"""
    r = set()
    for o in dout:
        for e in walk(o.events):
            if isinstance(e, Ev) and re.search(r"mbqc_scheduling::interface::run$", e.name):
                x = e.pre or e.args
                if len(x) == 7:
                    r.add(x[4])
    r = {y for y in r if y is not num(1)} or r
    return list(r)[0] if len(r) == 1 else None


def folder(R, rule, w, o):
    """the folder of the output exists before the file in it is made"""
    evs = [e for e in walk(o.events) if isinstance(e, Ev)]
    mk_ = [i for i, e in enumerate(evs) if re.search(r"fs::create_dir(_all)?$|DirBuilder::create$", e.name)]
    fl = [i for i, e in enumerate(evs) if re.search(r"fs::File::create(_new)?$|fs::write$|OpenOptions::open$", e.name)]
    asked = any(re.search(r"exists|metadata|is_dir|read_dir", e.name) for e in evs)
    if len(fl) != 1:
        R.und(rule, w, "where the file is made")
        return
    R.check(bool(mk_) and mk_[0] < fl[0] or (None if asked else False), rule, w, "the folder of the output is made before the file in it", evs[fl[0]].span)


def keeps(o):
    """does anything after the sweep get hold of what the sweep collected?"""
    L = next((e.loop for e in walk_loops(o.events) if any(isinstance(x, Ev) and x.name.endswith("plots::do_it") for p in backs(e.loop) for x in p.events)), None)
    if L is None:
        return True
    after, seen = [], False
    for e in o.events:
        if isinstance(e, LoopEv):
            if seen:
                return True
            seen = seen or e.loop is L
        elif seen and isinstance(e, Ev):
            after.append(e)
    got = {v for p in backs(L) for v, u in p.upd.items() if contains(u, lambda y: y.op == "ret" and any(isinstance(x, Ev) and x.ret is y and x.name.endswith("plots::do_it") for x in p.events)) or contains(u, lambda y: y.op == "phi")}
    return any(contains(x, lambda y: y in got) for e in after for x in (list(e.pre or ()) + list(e.args or ())) if isinstance(x, T)) or any(
        contains(x, lambda y: y.op in OPAQUE_OPS and y.op not in ("ret", "op", "const")) for e in after for x in (list(e.pre or ()) + list(e.args or ())) if isinstance(x, T))


# ------------------------------------------------------------------ the steps of a sweep
def seconds(t, env):
    """a duration in nanoseconds"""
    n = intval(t)
    if n is not None:
        return n
    if opname(t) == "from_nanos":
        return seconds(args_of(t)[0], env)
    for op_, k in (("from_micros", 10 ** 3), ("from_millis", 10 ** 6), ("from_secs", 10 ** 9)):
        if opname(t) == op_:
            return k * seconds(args_of(t)[0], env)
    if t.op == "f2i":
        return int(real(t.a[1], env))
    if t.op == "aff":
        c, d = aff(t)
        return int(c) + sum(int(k) * seconds(x, env) for x, k in d.items())
    if t in env:
        return env[t]
    raise NoValue(show(t))


def real(t, env):
    if opname(t) in ("round", "floor", "ceil", "trunc"):
        return {"round": lambda x: int(x + 0.5), "floor": math.floor, "ceil": math.ceil, "trunc": int}[opname(t)](real(args_of(t)[0], env))
    if t.op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = real(t.a[0], env), real(t.a[1], env)
        if t.op == "fdiv" and b == 0:
            raise NoValue("division by zero")
        return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[t.op]()
    if t.op == "i2f":
        return float(seconds(t.a[0], env))
    if t.op in ("powi", "powf"):
        return real(t.a[0], env) ** (seconds(t.a[1], env) if t.op == "powi" else real(t.a[1], env))
    return fval(t, env)


def table(P, cfg, mod):
    """the timeouts that are set: step -> nanoseconds"""
    b = P.get(r"plots::%s::timeouts$" % mod, cfg)
    R0 = Report("C29")
    I, outs = summarise(R0, P, b, cfg, names=[])
    rs = [o for o in outs if o.kind == "ret" and feasible(o.facts)]
    if len(rs) != 1 or rs[0].ret.op != "phi":
        raise Undecided("the table of timeouts")
    v = rs[0].ret
    L = next((e.loop for e in walk_loops(rs[0].events) if e.loop.lid == v.a[0]), None)
    init = L.entry.get(v) if L else None
    if init is None or init.op != "fill" or intval(init.a[1]) is None:
        raise Undecided("the table of timeouts")
    n, _ = space(L)
    if n is None or intval(n) is None:
        raise Undecided("the steps of the table of timeouts")
    r = {i: 0 for i in range(intval(init.a[1]))}
    for j in range(intval(n)):
        env, hit = {K(L): j}, []
        for p in backs(L):
            base, us = peel(p.upd.get(v, v), [v])
            if base is not v or len(us) > 1:
                raise Undecided("how a timeout is set")
            ok = True
            for l in p.lits:
                try:
                    ok = ok and holds_n(l, env)
                except NoValue as x:
                    raise Undecided("under which condition a timeout is set: %s" % x)
            if ok:
                try:
                    hit.append([(val(u[1], env), seconds(u[2], env)) for u in us])
                except NoValue as x:
                    raise Undecided("a timeout: %s" % x)
        if len(hit) != 1:
            raise Undecided("which timeout is set in step %d" % j)
        for i, t in hit[0]:
            r[i] = max(0, t)
    return r


def holds_n(l, env):
    if l.op == "not":
        return not holds_n(l.a[0], env)
    if l.op == "lt0":
        return seconds(l.a[0], env) < 0
    if l.op == "eq0":
        return seconds(l.a[0], env) == 0
    raise NoValue(show(l))


def steps(R, P, cfg, w, mod):
    """every step has time to search, all of them fit in the time that is recorded, and densities stay within 0 and 1"""
    b = P.get(r"plots::%s::run$" % mod, cfg)
    I, outs = summarise(R, P, b, cfg, names=["args"], opaque=[r"plots::do_it(::<|$)", r"::timeouts$"])
    ga = gen_params(P, cfg, R)
    rule, done = "C29/steps", set()
    for o in outs:
        if o.kind != "ret" or not feasible(o.facts):
            continue
        wr = [x for e in walk(o.events) if isinstance(e, Ev) and re.search(r"serde_json::.*to_(writer|string|vec)", e.name) for x in (e.pre or e.args) if x.op == "agg" and "results" in (x.a[2] or ())]
        F = dict(zip(wr[0].a[2], wr[0].a[3])) if len(wr) == 1 else {}
        for le_ in walk_loops(o.events):
            L = le_.loop
            n = intval(space(L)[0]) if space(L)[0] is not None else None
            for p in backs(L):
                for x in p.events:
                    if not (isinstance(x, Ev) and x.name.endswith("plots::do_it")):
                        continue
                    a = list(x.pre or x.args)
                    if n is None:
                        R.und(rule, w, "the steps of the sweep", x.span)
                        continue
                    to, co = a[ga["timeout"]] if "timeout" in ga else None, a[ga["order"]] if "order" in ga else None
                    if (to, co) in done:
                        continue
                    done.add((to, co))
                    if to is None or to.op != "sel" or to.a[0].op != "ret":
                        R.und(rule, w, "the timeout of a step", x.span)
                    else:
                        with guard(R, rule, w):
                            try:
                                used = [val(to.a[1], {K(L): j}) for j in range(n)]
                            except NoValue as e:
                                raise Undecided("the timeout of a step: %s" % e)
                            t = table(P, cfg, mod)
                            out = [i for i in used if i not in t]
                            none = [i for i in used if t.get(i) == 0]
                            R.check(not out, rule, w, "every step has a timeout%s" % ("; there is none for step %d" % out[0] if out else ""), x.span)
                            R.check(not none, rule, w, "every step has time to search%s" % ("; step %d has none" % none[0] if none else ""), x.span)
                            wt, av = intval(F["walltime"]) if "walltime" in F else None, intval(F["num_average"]) if "num_average" in F else None
                            if wt is None or av is None:
                                R.und(rule, w, "the time that is recorded", x.span)
                            else:
                                s_ = sum(t.get(i, 0) for i in used) * av
                                R.check(s_ <= wt * 3600 * 10 ** 9, rule, w, "all searches fit in the wall time that is recorded: %.1f h of %d h" % (s_ / 3.6e12, wt), x.span)
                    # swept densities
                    if co is not None and contains(co, lambda y: y is K(L)):
                        f = fld(co, "factor")
                        try:
                            xs = [fval(f, {K(L): j}) for j in range(n)]
                        except NoValue as e:
                            R.und(rule, w, "the density of a step: %s" % e, x.span)
                            continue
                        bad = [y for y in xs if not 0 <= y <= 1]
                        R.check(not bad, rule, w, "the densities swept over are within 0 and 1%s" % ("; one is %g" % bad[0] if bad else ""), x.span)
                        R.check(len(set(xs)) == len(xs), rule, w, "every step has a density of its own", x.span)


def bounds(R, P, cfg, w):
    """a density is accepted iff it is within 0 and 1"""
    for t in ("ConstantDensity", "ReziprocalLinearDensity", "ReziprocalSquareRootDensity"):
        b = P.get(r"::%s::new$" % t, cfg)
        I, outs = summarise(R, P, b, cfg, names=["factor"])
        f = sy("factor")

        def cond(l, v, evs):
            if l.op == "not":
                return not cond(l.a[0], v, evs)
            if l.op in ("and", "or"):
                xs = [cond(y, v, evs) for y in (l.a[0] if isinstance(l.a[0], tuple) else l.a)]
                return all(xs) if l.op == "and" else any(xs)
            if l.op in ("flt", "fle", "fgt", "fge"):
                a, c = fval(l.a[0], {f: v}), fval(l.a[1], {f: v})
                return {"flt": a < c, "fle": a <= c, "fgt": a > c, "fge": a >= c}[l.op]
            if l.op == "bool":
                return l.a[0]
            e = next((e for e in evs if isinstance(e, Ev) and e.ret is l), None)
            if e is not None and re.search(r"Range(Inclusive)?::.*contains$", e.name):
                r, x = (e.pre or e.args)[:2]
                lo, hi, x = fval(fld(r, "start"), {f: v}), fval(fld(r, "end"), {f: v}), fval(x, {f: v})
                return lo <= x <= hi if "Inclusive" in e.name else lo <= x < hi
            raise NoValue(show(l))
        for v in (-1.0, -1e-6, 0.0, 0.25, 1.0, 1.000001, 2.0):
            got = set()
            try:
                for o in outs:
                    if all(cond(l, v, list(walk(o.events))) for l in o.lits):
                        got.add(o.kind)
            except NoValue as x:
                R.und("C29/bounds", w, "which factors %s accepts: %s" % (t, x))
                break
            R.check(None if len(got) != 1 else got == {"ret" if 0 <= v <= 1 else "panic"}, "C29/bounds", w, "%s takes factors within 0 and 1 only: %g is %s" % (t, v, "/".join("taken" if g == "ret" else "refused" for g in got)), b.get("span"))


RULES = {"C29": c29}

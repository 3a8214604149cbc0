"""C19 (command line): the description of the command line is a value the program builds with clap; it is read off the summary of
main together with the places its parts are used at."""
from rulelib import *
from rules_run import walk, calls, option, SER

CFGS = (("on", ""), ("off", " (release)"))
FILE_RUN = r"\binterface::run_serialized\b"
# documented name -> (short, parameter)
FLAGS = {"search": ("s", "do_search"), "timeout": ("t", "timeout"), "nthreads": ("n", "nthreads"), "probablistic": ("p", "accept"), "task-bound": ("b", "task_bound")}
POSITIONAL = [("graph", "0"), ("graph", "1"), ("order", "0"), ("order", "1"), ("paths", "0"), ("paths", "1")]
HARMLESS = {"value_name", "help", "long_help", "value_hint", "help_heading", "display_order", "hide", "hide_default_value", "hide_short_help", "hide_long_help", "next_line_help",
            "alias", "visible_alias", "aliases", "visible_aliases", "short_alias", "visible_short_alias", "hide_possible_values"}
CMD_HARMLESS = {"version", "author", "about", "long_about", "arg_required_else_help", "before_help", "after_help", "before_long_help", "after_long_help", "name", "bin_name", "display_name",
                "help_template", "color", "styles", "term_width", "max_term_width", "next_line_help", "disable_help_subcommand", "next_display_order", "next_help_heading", "long_version", "override_usage", "override_help"}
STRICTER = {"requires", "requires_all", "requires_if", "requires_ifs", "conflicts_with", "conflicts_with_all", "exclusive", "required_unless_present", "required_if_eq"}


def opname(t):
    return str(t.a[0]) if t.op == "op" and isinstance(t.a[0], str) else None


def args_of(t):
    return [x for x in t.a[1:]]


def text(t):
    """a constant name"""
    while t.op == "op" and opname(t) in ("into", "as_ref", "deref", "from", "to_owned", "to_string") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "str":
        return t.a[0]
    if isnum(t):
        return chr(t.a[0]) if 0 < t.a[0] < 0x110000 else None
    return None


def generic(t):
    """type parameters of a clap call"""
    x = t.a[-1]
    return x.a[0][1:-1] if x.op == "str" and str(x.a[0]).startswith("<") else ""


def builder(t, stop):
    """settings of a builder chain, in order, and the call that starts it"""
    r = []
    while opname(t) is not None and opname(t) != stop:
        a = args_of(t)
        if len(a) < 2 or a[0].op != "op":
            raise Undecided("builder call %s" % opname(t))
        r.append((opname(t), a[1:-1], t))
        t = a[0]
    if opname(t) != stop:
        raise Undecided("start of a builder: %s" % short(t, 2))
    return list(reversed(r)), t


class Arg:
    def __init__(self, t):
        st, new = builder(t, "new")
        self.id = text(args_of(new)[0])
        if self.id is None:
            raise Undecided("name of an argument")
        self.set = {}
        for n, a, tt in st:
            self.set.setdefault(n, []).append((a, tt))

    def one(self, n):
        return self.set[n][-1][0] if n in self.set else None

    def flag(self, n, default):
        v = self.one(n)
        if v is None:
            return default
        if v[0].op == "bool":
            return v[0].a[0]
        return None

    def name(self, n):
        v = self.one(n)
        return text(v[0]) if v else None

    @property
    def positional(self):
        return "short" not in self.set and "long" not in self.set

    def kind(self):
        """type of the value"""
        a = self.one("action")
        if a is not None and a[0].op == "agg":
            if a[0].a[1] in ("SetTrue", "SetFalse"):
                return "bool"
            if a[0].a[1] != "Set":
                return None
        elif a is not None:
            return None
        v = self.set.get("value_parser")
        if v is None:
            return "std::string::String"
        g = generic(v[-1][1])
        m = re.match(r"^(?:.*::)?RangedI64ValueParser<(\w+)>$|^(?:.*::)?RangedU64ValueParser<(\w+)>$", g)
        if m:
            return m.group(1) or m.group(2)
        if g.endswith("BoolValueParser"):
            return "bool"
        if g.endswith("StringValueParser"):
            return "std::string::String"
        return None


def command(t):
    """[Arg], other settings"""
    st, new = builder(t, "new")
    r, other = [], []
    for n, a, tt in st:
        if n == "arg":
            r.append(Arg(a[0]))
        elif n == "args" and a[0].op == "arr":
            r += [Arg(x) for x in a[0].a[0]]
        else:
            other.append(n)
    return r, other


STRIP = {"clone", "to_owned", "to_string", "into", "as_str", "deref", "from", "as_ref", "copied", "cloned", "to_path_buf"}


def leaf(t):
    """(method, name, type, matches) if t is a value of the command line"""
    while True:
        if t.op == "op" and opname(t) in STRIP and len(t.a) == 2:
            t = t.a[1]
            continue
        if t.op == "fld" and t.a[1] == "Some.0" or t.op == "fld" and t.a[1] == "Ok.0" and opname(t.a[0]) in ("try_remove_one", "try_get_one"):
            t = t.a[0]
            continue
        break
    n = opname(t)
    if n in ("remove_one", "get_one", "get_flag", "try_remove_one", "try_get_one", "get_raw", "get_count"):
        a = args_of(t)
        return (n, text(a[1]), "bool" if n == "get_flag" else generic(t), a[0], t)
    return None


def cli(R, ctx, cfg, rel):
    w = "main" + rel
    b = ctx.find(r"^mbqc_scheduling::main$", cfg)
    fr = [x for x in ctx.find(FILE_RUN, cfg, many=True) if "impl AsRef" not in x["key"] and "closure" not in x["key"]]
    if not fr:
        raise Undecided("the binary does not call the run on files")
    I, outs = summarise(R, ctx, b, cfg, opaque=[FILE_RUN])
    al = lambda x: x.op == "op" or x.op == "ret" and x.a[0] not in UNKNOWN_CIDS
    seen, matches = 0, None
    where = {}      # id -> parameters it reaches
    ends = {"Ok": 0, "Err": 0}
    for o in outs:
        if not feasible(o.facts):
            continue
        ev = calls(o.events, FILE_RUN)
        if not ev:
            if o.kind != "panic":
                exits = [e for e in o.events if isinstance(e, Ev) and e.name == "exit"]
                R.check(None if exits or any(foreign(c, al) for c in o.lits) else False, "C19/runs", w, "the program runs the search on the files", b.get("span"))
            continue
        seen += 1
        e = ev[0]
        if len(ev) != 1 or len(e.args) != 8:
            R.check(None, "C19/runs", w, "the search is run once", e.span)
            continue
        a = dict(zip(SER, e.args))
        f = o.facts
        # ----- the command line
        lv = {}
        for k, t in [((n, i), fld(a[n], i)) for n, i in POSITIONAL] + [((n, None), a[n]) for n in ("do_search", "nthreads")]:
            lv[k] = leaf(t)
        ms = {x[3] for x in lv.values() if x}
        if len(ms) != 1:
            R.check(None, "C19/values", w, "one command line is parsed", e.span)
            continue
        m = next(iter(ms))
        while opname(m) in ("unwrap_or_else", "expect", "unwrap"):
            m = args_of(m)[0]
        if opname(m) not in ("get_matches", "get_matches_mut"):
            R.check(None, "C19/values", w, "one command line is parsed", e.span)
            continue
        args, other = command(args_of(m)[0])
        by = {x.id: x for x in args}
        pos = [x for x in args if x.positional]
        if seen == 1:
            declared(R, w, e, args, other, pos)
        # ----- positional arguments
        for k, (n, i) in enumerate(POSITIONAL):
            x, what = lv[(n, i)], "%s of the %s" % ({"0": "path", "1": "format"}[i], {"graph": "graph", "order": "ordering", "paths": "output"}[n])
            t = fld(a[n], i)
            if x is None or x[1] is None:
                R.check(None if foreign(t, lambda y: False) else False, "C19/positional", w, "argument %d is the %s" % (k + 1, what), e.span)
                continue
            if len(pos) == 6 and not any("index" in p.set for p in pos):
                R.check(True if pos[k].id == x[1] else False, "C19/positional", w, "argument %d is the %s" % (k + 1, what), e.span)
            elif any("index" in p.set for p in pos) and x[1] in by and "index" in by[x[1]].set:
                v = by[x[1]].one("index")[0]
                R.check(None if not isnum(v) else v.a[0] == k + 1, "C19/positional", w, "argument %d is the %s" % (k + 1, what), e.span)
            else:
                R.check(False if x[1] in by and not by[x[1]].positional else None, "C19/positional", w, "argument %d is the %s" % (k + 1, what), e.span)
            typed(R, w, by, x, "std::string::String", e)
        # ----- options
        opt = {x.name("long"): x for x in args if not x.positional and x.name("long")}
        for long, (sh, prm) in FLAGS.items():
            x = opt.get(long) or (opt.get("probabilistic") if long == "probablistic" else None)
            if x is None:
                if seen == 1:
                    R.check(None, "C19/option", w, "there is an option --%s" % long, e.span)
                continue
            reaches(R, w, f, al, by, x, long, prm, a, e, ms)
        # ----- the result
        if o.kind == "panic":
            r = f.decide(isv(e.ret, "Ok"))
            R.check(True if r is False else (False if r is True and not e.cid == -1 else None), "C19/success", w, "a successful run ends with success", e.span)
            ends["Err"] += 1
        elif o.kind == "ret":
            d = f.decide(isv(e.ret, "Err"))
            if o.ret.op == "agg" and o.ret.a[1] == "Err" or f.decide(isv(o.ret, "Err")) is True:
                R.check(True if d is True else (None if d is None else False), "C19/success", w, "a successful run ends with success", e.span)
                ends["Err"] += 1
            elif o.ret is e.ret:
                ends["Err"] += 1
                ends["Ok"] += 1
                R.ok("C19/failure", w, "a failed run ends with failure", e.span)
            elif opname(o.ret) or foreign(o.ret, lambda y: y.op == "ret") or o.ret.op == "const":
                R.check(None, "C19/failure", w, "a failed run ends with failure", e.span)
            else:
                R.check(True if d is False else False, "C19/failure", w, "a failed run ends with failure", e.span)
                ends["Ok"] += 1
        elif o.kind == "exit_process":
            x = [y for y in o.events if isinstance(y, Ev) and y.name == "exit"][-1]
            d = f.decide(isv(e.ret, "Err"))
            z = x.args[0] if x.args else num(1)
            if isnum(z):
                good = (z.a[0] != 0) == (d is True) if d is not None else None
                if d is None and z.a[0] == 0:
                    good = False
                R.check(good, "C19/failure", w, "a failed run ends with failure and a successful one with success", x.span)
            else:
                R.check(None, "C19/failure", w, "a failed run ends with failure", x.span)
            ends["Err"] += 1
        else:
            R.check(None, "C19/failure", w, "the program ends", e.span)
    R.check(True if seen else None, "C19/runs", w, "the program runs the search on the files", b.get("span"))


def declared(R, w, e, args, other, pos):
    sp = e.span
    ids = [x.id for x in args]
    R.check(len(set(ids)) == len(ids), "C19/names", w, "every argument has a name of its own", sp)
    for n in other:
        if n not in CMD_HARMLESS:
            R.check(None, "C19/settings", w, "setting %s of the command line" % n, sp)
    R.check(True if len(pos) == 6 else None, "C19/positional", w, "there are six positional arguments", sp)
    for x in pos:
        d = x.one("default_value")
        R.check(True if x.flag("required", False) is True and d is None else (None if x.flag("required", False) is None else False), "C19/required", w, "the positional argument %s is required" % x.id, sp)
    for x in args:
        for n in x.set:
            if n in HARMLESS or n in ("required", "short", "long", "action", "value_parser", "default_value", "index"):
                continue
            R.check(False if n in STRICTER and not x.positional else None, "C19/settings", w, "setting %s of %s" % (n, x.id), sp)
    for x in args:
        for a, t in x.set.get("value_parser", []):
            for y in (z for c in a for z in subterms(c) if opname(z) == "range"):
                g = args_of(y)[1]
                lo = intval(fld(g, "start")) if g.op == "agg" and "start" in (g.a[2] or ()) and len(g.a[2]) == 1 else None
                # a least value of 1 turns away only what makes no sense
                R.check(None if g.op != "agg" or lo in (0, 1) else False, "C19/range", w, "%s takes every value of its type; it is held to %s" % (x.id, short(g)), sp)
    for x in args:
        if x.positional:
            continue
        r = x.flag("required", False)
        R.check(True if r is False else (None if r is None else False), "C19/optional", w, "the option %s is optional" % x.id, sp)
        l, s = x.name("long"), x.name("short")
        known = {k: v[0] for k, v in FLAGS.items()}
        if l in known and s is not None:
            R.check(True if known[l] == s else (False if s in known.values() else None), "C19/short", w, "-%s is the short form of --%s" % (known[l], l), sp)
        elif s in known.values():
            R.check(None, "C19/short", w, "-%s is the short form of a documented option" % s, sp)


def typed(R, w, by, x, want, e):
    """a value is taken out with the type it was parsed as"""
    a = by.get(x[1])
    if a is None:
        R.bad("C19/names", w, "the value %s is declared" % x[1], e.span)
        return
    k = a.kind()
    if k is None:
        R.check(None, "C19/type", w, "type of %s" % x[1], e.span)
        return
    R.check(k == x[2] or not x[2], "C19/type", w, "%s is taken out with the type it is parsed as" % x[1], e.span)
    if want:
        R.check(k == want, "C19/type", w, "%s is a %s" % (x[1], want.split("::")[-1]), e.span)


def find_leaf(t, x):
    """command line values of the argument x in a term"""
    r = []
    for y in subterms(t):
        if opname(y) in ("remove_one", "get_one", "get_flag", "try_remove_one", "try_get_one"):
            l = leaf(y)
            if l and l[1] == x.id:
                r.append(l)
    return r


def reaches(R, w, f, al, by, x, long, prm, a, e, ms):
    sp = e.span
    t = a[prm]
    what = "--%s reaches the %s of the run" % (long, {"do_search": "search flag", "timeout": "timeout", "nthreads": "thread count", "accept": "accept function", "task_bound": "task bound"}[prm])
    if prm in ("do_search", "nthreads"):
        l = leaf(t)
        if l is None:
            if prm == "do_search" and t.op == "bool":
                return cond_flag(R, w, f, x, t.a[0], what, sp, by, e, ms)
            R.check(None if foreign(t, lambda y: known_fn(y)) and not find_leaf(t, x) else False, "C19/option", w, what, sp)
            return
        R.check(l[1] == x.id, "C19/option", w, what, sp)
        if l[1] == x.id:
            typed(R, w, by, l, "bool" if prm == "do_search" else "u16", e)
        if prm == "nthreads":
            d = x.one("default_value")
            s = text(d[0]) if d else None
            R.check(True if s == "1" else (False if s is not None or d is None else None), "C19/default", w, "one thread is the default", sp)
        elif "default_value" in x.set:
            R.check(None, "C19/default", w, "default of --%s" % long, sp)
        if prm == "do_search":
            flag_action(R, w, x, long, sp)
        return
    if prm == "accept":
        flag_action(R, w, x, long, sp)
        if t.op == "agg" and t.a[1] in ("Some", "None"):
            cond_flag(R, w, f, x, t.a[1] == "Some", "the builtin accept function is used exactly with --%s" % long, sp, by, e, ms)
            if t.a[1] == "Some":
                v = fld(t, "Some.0")
                R.check(v.op == "agg" and v.a[1] == "BuiltinHeavyside" if v.op == "agg" else None, "C19/accept", w, "--%s selects the builtin accept function" % long, sp)
        else:
            R.check(None, "C19/accept", w, "the builtin accept function is used exactly with --%s" % long, sp)
        return
    # optional numbers
    if "default_value" in x.set:
        R.bad("C19/default", w, "--%s has no default" % long, sp)
    R.check(True if x.kind() == "u32" else (None if x.kind() is None else False), "C19/type", w, "--%s is a 32 bit number" % long, sp)
    l = leaf(t)
    if l is not None and t.op == "op":
        R.check(l[1] == x.id if prm == "task_bound" else False, "C19/option", w, what, sp)
        if l[1] == x.id:
            typed(R, w, by, l, "u32", e)
        return
    raw = [mk("op", n, m, mk("str", x.id), mk("str", "<%s>" % (x.kind() or "u32"))) for m in ms for n in ("remove_one", "get_one")]
    if t.op == "agg" and t.a[1] in ("Some", "None") or f.decide(isv(t, "Some")) is not None:
        k = t.a[1] if t.op == "agg" else "Some" if f.decide(isv(t, "Some")) else "None"
        present = [f.decide(isv(y, "Some")) for y in raw]
        p = True if True in present else False if False in present else None
        if k == "None":
            R.check(True if p is False else (False if p is True else None), "C19/option", w, what, sp)
            if p is None:
                # given or not, it is not used
                R.check(None if any(opname(y) in ("remove_one", "get_one") and leaf(y)[1] == x.id for c in f.simp(t).a if hasattr(c, "op") for y in subterms(c)) else False, "C19/option", w, what, sp)
            return
        R.check(True if p is True else (False if p is False else None), "C19/option", w, what, sp)
        v = fld(t, "Some.0") if t.op == "agg" else fld(f.simp(t), "Some.0")
        if prm == "timeout":
            if opname(v) != "from_secs":
                if opname(v) in ("from_millis", "from_micros", "from_nanos", "from_secs_f64", "from_secs_f32", "mul", "div"):
                    R.bad("C19/option", w, "the timeout is given in seconds", sp)
                else:
                    R.check(None if foreign(v, lambda y: opname(y) in ("remove_one", "get_one")) else False, "C19/option", w, "the timeout is given in seconds", sp)
                return
            v = args_of(v)[0]
        l = leaf(v)
        if l is None:
            R.check(None if foreign(v, lambda y: opname(y) in ("remove_one", "get_one", "get_matches") or known_fn(y) or opname(y) is not None and "clap" in str(y)) and not find_leaf(v, x) else False, "C19/option", w, what, sp)
            return
        R.check(l[1] == x.id, "C19/option", w, what, sp)
        if l[1] == x.id:
            typed(R, w, by, l, "u32", e)
    else:
        R.check(None, "C19/option", w, what, sp)


def flag_action(R, w, x, long, sp):
    v = x.one("action")
    if v is None:
        R.bad("C19/flag", w, "--%s is a flag" % long, sp)
    elif v[0].op == "agg":
        R.check(v[0].a[1] == "SetTrue", "C19/flag", w, "--%s is a flag" % long, sp)
    else:
        R.check(None, "C19/flag", w, "--%s is a flag" % long, sp)


def cond_flag(R, w, f, x, got, what, sp, by, e, ms):
    """got: the value on this path; is the flag decided accordingly?"""
    ds = []
    for m in ms:
        for t in (fld(mk("op", "remove_one", m, mk("str", x.id), mk("str", "<bool>")), "Some.0"), mk("op", "get_flag", m, mk("str", x.id), mk("str", "<>")),
                  fld(mk("op", "get_one", m, mk("str", x.id), mk("str", "<bool>")), "Some.0")):
            ds.append(f.decide(t))
    ds = [d for d in ds if d is not None]
    R.check(True if ds and all(d is got for d in ds) else False, "C19/accept", w, what, sp)


def c19(R, ctx):
    parallel(R, [("main" + rel, lambda R, cfg=cfg, rel=rel: cli(R, ctx, cfg, rel)) for cfg, rel in CFGS], "C19")


RULES = {"C19": c19}

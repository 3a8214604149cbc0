"""The entry points: C17 (run), C18 (run on files)."""
from rulelib import *
from rules_search import Scen, le

CFGS = (("on", ""), ("off", " (release)"))
RUN = ["graph", "order", "do_search", "timeout", "nthreads", "task_bound", "prob"]
SEARCH, OPTIMAL, FUNC = r"\bsearch::search$", r"\bget_time_optimal$", r"\bget_accept_func$"
DEFAULT_BOUND = 100000


def walk(evs):
    for e in evs:
        yield e
        if isinstance(e, LoopEv):
            for q in e.loop.paths:
                for x in walk(q.events):
                    yield x
        elif isinstance(e, SpawnEv):
            for k, s, _ in e.paths:
                for x in walk(unlist(s.trace, e.mark)):
                    yield x


def calls(evs, pat):
    return [e for e in walk(evs) if isinstance(e, Ev) and e.raw is not None and re.search(pat, e.raw)]


def options(o, names):
    """[(facts, {name: inner value or None})] with every option decided"""
    r = [(o.facts, {})]
    for n in names:
        t = mk("sym", n)
        nxt = []
        for f, d in r:
            for v in ("Some", "None"):
                g = f.assume(isv(t, v))
                if feasible(g):
                    nxt.append((g, dict(d, **{n: fld(t, "Some.0") if v == "Some" else None})))
        r = nxt
    return r


def search_params(ctx, cfg):
    """names of the parameters of the search, by their types"""
    b = ctx.find(SEARCH, cfg)
    names = [None] * b["argc"]
    for i in range(b["argc"]):
        ty = b["locals"][i + 1]["ty"]
        for n, pat in (("order", r"Vec<\(usize"), ("prob", r"dyn .*Fn|AcceptFunc"), ("graph", r"^&?\[?.*Vec<usize>"), ("timeout", r"Duration"), ("nthreads", r"^u16$|NonZero|^usize$"),
                       ("task_bound", r"^[iu](32|64)$|^isize$|Option<u32>")):
            if n not in names and re.search(pat, ty):
                names[i] = n
                break
    if None in names or len(set(names)) != 6 or len(names) != 6:
        raise Undecided("parameters of search::search")
    return names


def run_rule(R, ctx, cfg, rel):
    w = "interface::run" + rel
    b = ctx.find(r"\binterface::run$", cfg)
    if b["argc"] != 7:
        raise Undecided("parameters of interface::run")
    sn = search_params(ctx, cfg)
    ctx.find(OPTIMAL, cfg)
    ctx.find(FUNC, cfg)
    I, outs = summarise(R, ctx, b, cfg, names=RUN, opaque=[SEARCH, OPTIMAL, FUNC])
    S = {n: mk("sym", n) for n in RUN}
    got = {True: 0, False: 0}
    al = lambda x: x.op == "ret" and x.a[0] not in UNKNOWN_CIDS
    for o in outs:
        if not feasible(o.facts):
            continue
        with R.under(o.lits, lambda x: al(x) or known_fn(x)):
            if o.kind != "ret":
                R.check(None, "C17/returns", w, "the run returns", b.get("span"))
                continue
            for flag in (True, False):
                f0 = o.facts.assume(S["do_search"] if flag else neg(S["do_search"]))
                if not feasible(f0):
                    continue
                o2 = o
                se, op, fs = (calls(o.events, p) for p in (SEARCH, OPTIMAL, FUNC))
                if not flag:
                    got[False] += 1
                    R.check(True if not se else False, "C17/plain", w, "without the search flag nothing is searched", se[0].span if se else None)
                    if op:
                        e = op[-1]
                        good = o.ret is e.ret
                        R.check(True if good else (None if foreign(o.ret, al) else False), "C17/plain", w, "without the search flag the time optimal schedule is returned", e.span)
                        for x, n in zip(e.args, ("graph", "order")):
                            R.check(compare(f0, x, S[n], al), "C17/plain-" + n, w, "the time optimal schedule is that of the given %s" % {"graph": "graph", "order": "ordering"}[n], e.span)
                        own = [c for c in o.lits if any(x.op == "sym" and x.a[0] in ("timeout", "nthreads", "task_bound", "prob") for x in subterms(c))]
                        if len(own):
                            f = o.facts
                            R.check(None, "C17/plain", w, "without the search flag no option matters")
                    else:
                        R.check(None if foreign(o.ret, al) or se else False, "C17/plain", w, "without the search flag the time optimal schedule is returned")
                    continue
                got[True] += 1
                if not se:
                    R.check(None if foreign(o.ret, al) else False, "C17/search", w, "with the search flag the search is run", op[0].span if op else None)
                    continue
                R.check(True if len(se) == 1 else None, "C17/search", w, "with the search flag the search is run once", se[0].span)
                e = se[0]
                R.check(True if o.ret is e.ret else (None if foreign(o.ret, al) else False), "C17/result", w, "what the search found is returned", e.span)
                a = dict(zip(sn, e.args))
                for n in ("graph", "order", "timeout", "nthreads"):
                    for f, d in options(o, ["timeout"] if n == "timeout" else []):
                        f = f.assume(S["do_search"])
                        if not feasible(f):
                            continue
                        v = S[n]
                        if n == "timeout":
                            v = some(d["timeout"]) if d["timeout"] is not None else NONE
                            R.check(option(f, a[n], v, al), "C17/" + n, w, "the timeout reaches the search unchanged", e.span)
                            continue
                        R.check(compare(f, a[n], v, al, fns=True), "C17/" + n, w, "the %s reaches the search unchanged" % {"graph": "graph", "order": "ordering", "nthreads": "thread count"}[n], e.span)
                for f, d in options(o, ["task_bound", "prob"]):
                    f = f.assume(S["do_search"])
                    if not feasible(f):
                        continue
                    bnd = d["task_bound"]
                    x = a["task_bound"]
                    if f.simp(x).op in ("agg",) and x.a[1] in ("Some", "None") or f.decide(isv(x, "Some")) is not None and x.op not in ("aff", "num"):
                        if f.decide(isv(x, "Some")) is not True:
                            x = None
                        else:
                            x = fld(x, "Some.0")
                    if x is None:
                        R.check(None, "C17/bound", w, "the task bound reaches the search", e.span)
                    elif bnd is not None:
                        R.check(compare(f, x, bnd, al, fns=True), "C17/bound", w, "the task bound reaches the search unchanged", e.span)
                    else:
                        R.check(compare(f, x, num(DEFAULT_BOUND), al, fns=True), "C17/default-bound", w, "without task bound %d tasks are allowed" % DEFAULT_BOUND, e.span)
                    p = a["prob"]
                    k = f.decide(isv(p, "Some")) if p.op != "agg" else p.a[1] == "Some"
                    if d["prob"] is None:
                        R.check(True if k is False else (None if k is None else False), "C17/mode", w, "without accept function the search is deterministic", e.span)
                        continue
                    R.check(True if k is True else (None if k is None else False), "C17/mode", w, "with an accept function the search is probabilistic", e.span)
                    if k is True:
                        p = fld(p, "Some.0")
                        fn, sd = fld(p, "0"), fld(p, "1")
                        want = [c for c in fs if f.eqv(c.args[0], fld(d["prob"], "0"))]
                        R.check(True if any(fn is c.ret for c in want) else (None if foreign(fn, al) or not fs else False), "C17/accept", w, "the given accept function is used", e.span)
                        s0 = fld(d["prob"], "1")
                        for v in ("Some", "None"):
                            g = f.assume(isv(s0, v))
                            if feasible(g):
                                R.check(option(g, sd, some(fld(s0, "Some.0")) if v == "Some" else NONE, al), "C17/seed", w, "the seed reaches the search unchanged", e.span)
    for k, t in ((True, "with"), (False, "without")):
        if not got[k]:
            R.check(None, "C17/flag", w, "there is a run %s the search flag" % t)


def option(f, x, want, al):
    """compare optional values, the wanted one being spelled out"""
    if x.op == "agg" and x.a[1] in ("Some", "None"):
        k = x.a[1]
    else:
        d = f.decide(isv(x, "Some"))
        if d is None:
            return None if foreign(x, al) or x.op != "sym" else False
        k = "Some" if d else "None"
    if k != want.a[1]:
        return False
    if k == "None":
        return True
    return compare(f, fld(x, "Some.0"), fld(want, "Some.0"), al, fns=True)


def mode_rule(R, S, w):
    sp = S.outs[0].lits and None
    two = num(2)
    for o in S.single_outs:
        with R.under(o.lits):
            lp = [e for e in o.events if isinstance(e, LoopEv)]
            R.check(strict(o.facts, o.lits, lt(S.nthreads, two)), "C17/single", w, "only less than two threads search without threads", lp[0].loop.span if lp else None)
    for o in S.multi_outs:
        sb = [e for e in o.events if isinstance(e, Ev) and e.name == "scope.begin"]
        with R.under(o.lits):
            R.check(strict(o.facts, o.lits, le(two, S.nthreads)), "C17/threads", w, "only two or more threads search with threads", sb[0].span if sb else None)
        if len(sb) != 1:
            R.check(None, "C17/pool", w, "the search is done by one pool of threads")
            continue
        p = sb[0].args[0]
        if p.op == "agg" and p.a[0] == "prim::Pool":
            R.check(compare(o.facts, p.a[3][0], S.nthreads, fns=True), "C17/pool", w, "the pool has as many threads as asked for", sb[0].span)
        else:
            R.check(None, "C17/pool", w, "the pool has as many threads as asked for", sb[0].span)
    R.check(True if S.single_outs else None, "C17/single", w, "there is a search without threads")
    R.check(True if S.multi_outs else None, "C17/threads", w, "there is a search with threads")
    for sl in S.sls:
        cs = [e for q in sl.L.paths for e in walk(q.events) if isinstance(e, Ev) and e.name == "call_fn" and S.f in subterms(e.args[0])]
        if S.prob == "det":
            R.check(True if not cs else False, "C17/mode", w, "without accept function nothing is decided by one", sl.L.span)
        else:
            other = [e for q in sl.L.paths for e in walk(q.events) if isinstance(e, Ev) and e.name == "call_fn"]
            unk = [e for q in sl.L.paths for e in walk(q.events) if isinstance(e, Ev) and e.cid in UNKNOWN_CIDS]
            R.check(True if cs else (None if other or unk else False), "C17/mode", w, "with an accept function every search loop asks it", sl.L.span)


def c17(R, ctx):
    jobs = []
    for cfg, rel in CFGS:
        jobs.append(("interface::run" + rel, lambda R, cfg=cfg, rel=rel: run_rule(R, ctx, cfg, rel)))
    for cfg, rel in CFGS:
        for p in ("det", "prob"):
            w = "%s search%s" % ({"det": "deterministic", "prob": "probabilistic"}[p], rel)
            jobs.append((w, lambda R, cfg=cfg, rel=rel, p=p, w=w: mode_rule(R, Scen(R, ctx, cfg, rel, False, p), w)))
    parallel(R, jobs, "C17")


# ------------------------------------------------------------------ C18
SER = ["graph", "order", "do_search", "timeout", "nthreads", "task_bound", "accept", "paths"]
FORMATS = ("serde_json", "bincode")
IO = re.compile(r"^(std::fs::|std::io::|core::io::|serde_json::|bincode::|std::os::)|as std::io::(Write|Read|BufRead|Seek)>")
OPEN = re.compile(r"fs::File::open$|fs::read$|fs::read_to_string$")
CREATE = re.compile(r"fs::File::create$|fs::File::create_new$|fs::write$|fs::rename$|fs::copy$|fs::create_dir$|fs::create_dir_all$|fs::remove\w*$|OpenOptions::open$|fs::hard_link$|File::options|set_len$|set_permissions$")
DECODE = re.compile(r"^(serde_json|bincode)::.*\b(from_reader|from_slice|from_str|deserialize_from|deserialize|decode_from_std_read|decode_from_slice)\b[^:]*$")
ENCODE = re.compile(r"^(serde_json|bincode)::.*\b(to_writer|to_writer_pretty|to_vec|to_vec_pretty|to_string|to_string_pretty|serialize_into|serialize|encode_into_std_write|encode_to_vec)\b[^:]*$")
BUFFER = re.compile(r"BufWriter|LineWriter")
FLUSH = re.compile(r"\b(flush|into_inner|finish|sync_all)$")
RAWWRITE = re.compile(r"\bwrite$|write_vectored$")


class Prov:
    """where values come from"""

    def __init__(self, evs):
        self.by = {}
        for e in evs:
            if isinstance(e, Ev):
                self.by.setdefault(e.cid, []).append(e)

    def roots(self, t, seen=None):
        """parameters a value depends on, following calls without summary"""
        return {x for x in self.closure(t) if x.op in ("fld", "sym") and (x.op == "sym" or x.a[0].op == "sym")}

    def closure(self, t):
        r, todo, seen = set(), [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "fld" and x.a[0].op == "sym":
                r.add(x)
                continue
            r.add(x)
            if x.op in ("ret", "after"):
                for e in self.by.get(x.a[0], ()):
                    todo += [y for y in tuple(e.args) + tuple(e.pre) if hasattr(y, "op")]
                if x.op == "ret":
                    continue
            for y in x.a:
                if hasattr(y, "op"):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo += [z for z in y if hasattr(z, "op")]
        return r

    def events(self, t):
        return [e for x in self.closure(t) if x.op in ("ret", "after") for e in self.by.get(x.a[0], ())]


def is_result(e):
    return e.ty is not None and re.match(r"(std|core)::(result::Result<|io::Result)", e.ty) is not None


def file_rule(R, ctx, cfg, rel):
    w = "interface::run_serialized" + rel
    c = ctx.find(r"\binterface::run_serialized\b", cfg, many=True)
    c = [b for b in c if "impl AsRef" not in b["key"] and "closure" not in b["key"]]
    if not c:
        raise Undecided("no instance of run_serialized")
    b = c[0]
    if b["argc"] != 8:
        raise Undecided("parameters of run_serialized")
    runs = r"\binterface::run$"
    ctx.find(runs, cfg)
    I, outs = summarise(R, ctx, b, cfg, names=SER, opaque=[runs])
    S = {n: mk("sym", n) for n in SER}
    path = {n: fld(S[n], "0") for n in ("graph", "order", "paths")}
    fmt = {n: fld(S[n], "1") for n in ("graph", "order", "paths")}
    what = {"graph": "graph", "order": "ordering", "paths": "output"}
    opened = set()
    for o in outs:
        if not feasible(o.facts):
            continue
        evs = [e for e in walk(o.events) if isinstance(e, Ev)]
        io = {e.cid for e in evs if IO.search(e.raw or e.name)}
        runev = calls(o.events, runs)
        al = lambda x: (x.op in ("ret", "after") and (x.a[0] in io or any(x.a[0] == e.cid for e in runev))) or x.op == "op" and str(x.a[0]) in ("parent", "as_path", "as_ref", "to_owned", "to_path_buf", "into")
        P = Prov(evs)
        f = o.facts
        sp = evs[-1].span if evs else None
        with R.under(o.lits, lambda x: al(x) or known_str(x)):
            if any(isinstance(e, (LoopEv, SpawnEv)) for e in o.events):
                R.check(None, "C18/straight", w, "loops around files", sp)
                continue
            # formats of this path
            kind = {}
            for n in fmt:
                ds = [f.decide(eq(fmt[n], mk("str", x))) for x in FORMATS]
                kind[n] = FORMATS[ds.index(True)] if True in ds else "other" if ds == [False, False] else None
            touch = {n: [e for e in evs if IO.search(e.raw or e.name) and (OPEN.search(e.name) or CREATE.search(e.name)) and path[n] in P.closure(tup(*e.args))] for n in path}
            pos = {id(e): i for i, e in enumerate(evs)}
            rpos = pos[id(runev[0])] if runev else len(evs)
            fails = [e for e in evs if is_result(e) and f.decide(isv(e.ret, "Err")) is True]
            success = o.kind == "ret" and (o.ret.op == "agg" and o.ret.a[1] == "Ok" or f.decide(isv(o.ret, "Ok")) is True)
            failure = o.kind == "ret" and (o.ret.op == "agg" and o.ret.a[1] == "Err" or f.decide(isv(o.ret, "Err")) is True)
            # the result of a call is the result of the run
            same_ret = [e for e in evs if is_result(e) and o.kind == "ret" and (o.ret is e.ret)]
            if o.kind == "panic":
                if fails:
                    R.bad("C18/returned", w, "an error of %s is returned to the caller" % name_of(fails[-1]), fails[-1].span)
                continue
            if o.kind != "ret":
                R.check(None, "C18/returned", w, "the run ends", sp)
                continue
            # output only after the search, inputs never written
            for e in touch["paths"]:
                if CREATE.search(e.name):
                    R.check(True if pos[id(e)] > rpos else False, "C18/output-late", w, "the output path is touched only after the search", e.span)
            for n in ("graph", "order"):
                for e in touch[n]:
                    R.check(True if not CREATE.search(e.name) else False, "C18/inputs", w, "the %s file is only read" % what[n], e.span)
            # unknown formats
            for n in fmt:
                if kind[n] == "other":
                    for e in touch[n]:
                        R.bad("C18/unknown", w, "an unknown format of the %s touches no file" % what[n], e.span)
                    if success:
                        R.bad("C18/unknown", w, "an unknown format of the %s is an error" % what[n], sp)
                elif kind[n] is None and success:
                    R.bad("C18/formats", w, "the format of the %s is one of the documented ones" % what[n], touch[n][0].span if touch[n] else sp)
            # errors
            maybe = [e for e in evs if is_result(e) and f.decide(isv(e.ret, "Err")) is None and e not in same_ret]
            for e in maybe:
                R.check(False if not failure else True, "C18/dropped", w, "an error of %s is not dropped" % name_of(e), e.span)
            for e in fails:
                if failure:
                    m = fld(e.ret, "Err.0")
                    R.check(True if m in subterms(o.ret) else (None if foreign(o.ret, al) else False), "C18/returned", w, "an error of %s is returned to the caller" % name_of(e), e.span)
                else:
                    R.bad("C18/returned", w, "an error of %s is returned to the caller" % name_of(e), e.span)
            if failure and not fails and not same_ret:
                unk = [e for e in evs if e.cid in UNKNOWN_CIDS and not is_result(e) and not IO.search(e.raw or e.name)]
                ok = "other" in kind.values()
                R.check(True if ok else (None if unk or None in kind.values() and any(foreign(c, al) for c in o.lits) else False), "C18/spurious", w, "the documented formats are accepted and nothing else fails", sp)
            # the run
            if not runev:
                if success:
                    R.bad("C18/run", w, "success is reported only after the search", sp)
                continue
            R.check(True if len(runev) == 1 else None, "C18/run", w, "the search is run once", runev[0].span)
            e = runev[0]
            a = dict(zip(RUN, e.args))
            for n in ("graph", "order"):
                decoded(R, P, f, al, w, n, what[n], a[n], path[n], kind[n], e, opened)
            for n in ("do_search", "nthreads"):
                R.check(compare(f, a[n], S[n], al, fns=True), "C18/" + n, w, "the %s reaches the run unchanged" % {"do_search": "search flag", "nthreads": "thread count"}[n], e.span)
            for n in ("timeout", "task_bound"):
                if f.eqv(a[n], S[n]):
                    R.ok("C18/" + n, w, "the %s reaches the run unchanged" % n, e.span)
                    continue
                for v in ("Some", "None"):
                    g = f.assume(isv(S[n], v))
                    if feasible(g):
                        R.check(option(g, a[n], some(fld(S[n], "Some.0")) if v == "Some" else NONE, al), "C18/" + n, w, "the %s reaches the run unchanged" % n, e.span)
            for v in ("Some", "None"):
                g = f.assume(isv(S["accept"], v))
                if not feasible(g):
                    continue
                x = a["prob"]
                k = x.a[1] if x.op == "agg" else {True: "Some", False: "None", None: None}[g.decide(isv(x, "Some"))]
                R.check(True if k == v else (None if k is None else False), "C18/accept", w, "the accept function reaches the run", e.span)
                if k == v == "Some":
                    x = fld(x, "Some.0")
                    R.check(compare(g, fld(x, "0"), fld(S["accept"], "Some.0"), al), "C18/accept", w, "the accept function reaches the run", e.span)
                    R.check(option(g, fld(x, "1"), NONE, al), "C18/seed", w, "a run on files has no seed", e.span)
            if success or same_ret:
                written(R, P, f, al, w, evs, runev[0], path["paths"], kind["paths"], same_ret, o)
                for n in fmt:
                    if kind[n] in FORMATS:
                        opened.add((n, kind[n]))
    for n in fmt:
        for x in FORMATS:
            R.check(True if (n, x) in opened else None, "C18/formats", w, "%s is accepted for the %s" % (x, what[n]))


def known_str(x):
    return x.op == "op" and str(x.a[0]) in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "starts_with", "ends_with", "contains",
                                            "eq_ignore_ascii_case", "is_empty", "as_str", "as_ref", "as_os_str", "exists", "is_dir", "is_file", "parent", "as_path", "extension",
                                            "file_name", "len", "as_bytes", "is_absolute", "is_relative", "to_str", "to_string_lossy", "to_path_buf", "join", "as_encoded_bytes")


def name_of(e):
    return e.name.split("<")[0].split("::")[-2] + "::" + e.name.split("::")[-1] if "::" in e.name else e.name


def decoded(R, P, f, al, w, n, what, x, path, kind, e, opened):
    """an argument of the run is the content of its file"""
    src = x.a[0] if x.op == "fld" and x.a[1] in ("Ok.0", "Ok.0.0") else None
    if src is not None and src.op == "fld" and src.a[1] == "Ok.0":
        src = src.a[0]
    de = [d for d in P.by.get(src.a[0], ()) if src.op == "ret"] if src is not None and src.op == "ret" else []
    if not de:
        R.check(None if foreign(x, al) or P.events(x) else False, "C18/read", w, "the %s of the run is what was read" % what, e.span)
        return
    d = de[0]
    m = DECODE.search(d.raw or d.name)
    if not m:
        R.check(None, "C18/read", w, "the %s of the run is decoded" % what, d.span)
        return
    if kind in FORMATS:
        R.check(True if m.group(1) == kind else False, "C18/encoding", w, "%s selects the same encoding for reading the %s and for writing" % (kind, what), d.span)
    ops = [y for y in P.events(tup(*d.args)) if OPEN.search(y.name)]
    if len(ops) != 1:
        R.check(None, "C18/read", w, "the %s is read from one file" % what, d.span)
        return
    R.check(compare(f, ops[0].args[0], path, al), "C18/read", w, "the %s is read from its own path" % what, ops[0].span)
    part = [y for y in P.events(tup(*d.args)) if re.search(r"::take$|::seek$", y.name)]
    if part:
        R.check(None, "C18/read", w, "the whole %s is read" % what, part[0].span)


def written(R, P, f, al, w, evs, runev, path, kind, same_ret, o):
    sp = runev.span
    enc = [e for e in evs if ENCODE.search(e.raw or e.name)]
    if not enc:
        other = [e for e in evs if e.cid in UNKNOWN_CIDS and e.cid != runev.cid and not OPEN.search(e.name) and not DECODE.search(e.raw or e.name) and not CREATE.search(e.name)]
        R.check(None if other else False, "C18/written", w, "success is reported only if the result was written", sp)
        return
    if len(enc) != 1:
        R.check(None, "C18/written", w, "the result is written once", enc[0].span)
        return
    e = enc[0]
    m = ENCODE.search(e.raw or e.name)
    if kind in FORMATS:
        R.check(True if m.group(1) == kind else False, "C18/encoding", w, "%s selects the same encoding for reading and for writing the output" % kind, e.span)
    vals = [x for x in e.args if runev.ret in P.closure(x)]
    R.check(True if any(x is runev.ret for x in vals) else (None if not vals and any(foreign(x, al) for x in e.args) or any(foreign(x, al) for x in vals) else False), "C18/whole", w, "the whole result of the run is written", e.span)
    if m.group(2) in ("to_writer", "to_writer_pretty", "serialize_into", "encode_into_std_write"):
        dst = [x for x in e.args if x is not runev.ret and x not in vals]
        if len(dst) != 1:
            R.check(None, "C18/written", w, "destination of the output", e.span)
            return
        mk_ = P.events(tup(*[y for x in dst for y in (x, *[p for p, q in zip(e.pre, e.args) if q is x])]))
        mk_ = [y for y in mk_ if evs.index(y) < evs.index(e)]
        later = [y for y in evs if evs.index(y) > evs.index(e)]
    else:
        # to bytes, then to the file
        later = [y for y in evs if evs.index(y) > evs.index(e) and any(z in P.closure(tup(*y.args)) for z in (e.ret,))]
        if not later:
            R.bad("C18/written", w, "success is reported only if the result was written", e.span)
            return
        mk_ = [y for x in later for y in [x] + P.events(tup(*x.args, *x.pre)) if y is not e]
        for y in later:
            if RAWWRITE.search(y.name) and not y.name.endswith("fs::write"):
                R.bad("C18/whole", w, "the whole result of the run is handed to the file", y.span)
    crs = [y for y in mk_ if re.search(r"File::create$|File::create_new$|fs::write$", y.name)]
    if len({id(c) for c in crs}) != 1:
        oo = [y for y in mk_ if re.search(r"OpenOptions::open$|File::open$", y.name)]
        if oo and oo[0].name.endswith("File::open"):
            R.bad("C18/written", w, "the output file is created for writing", oo[0].span)
        elif oo:
            R.check(options_ok(P, oo[0], mk_, evs), "C18/whole", w, "an existing output file is replaced", oo[0].span)
        else:
            R.check(None, "C18/written", w, "the output is written to one file", e.span)
    else:
        ren = [y for y in evs if re.search(r"fs::rename$", y.name)]
        if ren and compare(f, ren[0].args[1], path, al):
            R.ok("C18/written", w, "the output is written to its own path", crs[0].span)
        else:
            R.check(compare(f, crs[0].args[0], path, al), "C18/written", w, "the output is written to its own path", crs[0].span)
    parent_made(R, P, f, al, w, evs, e, path, o)
    buf = [y for y in mk_ if BUFFER.search(y.name) and not re.search(r"BufReader", y.name)]
    if buf:
        fl = [y for y in later if FLUSH.search(y.name) and buf[0].cid in {z.a[0] for z in P.closure(tup(*y.args, *y.pre)) if z.op in ("ret", "after")}]
        R.check(True if fl else False, "C18/buffered", w, "success is reported only after buffered output has reached the file", buf[0].span)


MKDIR = re.compile(r"fs::create_dir_all$|DirBuilder::create$")


def parent_made(R, P, f, al, w, evs, enc, path, o):
    """the folder the output goes to is created if it is missing"""
    mks = [y for y in evs if MKDIR.search(y.name)]
    par = mk("op", "parent", path)
    what = "the missing folder of the output is created before the output"
    if mks:
        y = mks[0]
        made = [c for c in evs if re.search(r"File::create$|File::create_new$|fs::write$|OpenOptions::open$", c.name)]
        R.check(None if not made else evs.index(y) < evs.index(made[0]), "C18/folder", w, what, y.span)
        d = y.args[0] if y.name.endswith("all") else y.args[-1]
        R.check(compare(f, d, fld(par, "Some.0"), al) if y.name.endswith("all") else None, "C18/folder", w, "the folder that is created is the one the output goes to", y.span)
        return
    if f.decide(isv(par, "Some")) is False:
        R.ok("C18/folder", w, what, enc.span)
        return
    one = [y for y in evs if y.name.endswith("fs::create_dir") and compare(f, y.args[0], fld(par, "Some.0"), al)]
    if one:
        R.bad("C18/folder", w, "all missing folders of the output are created", one[0].span)
        return
    if any(c is mk("op", "exists", fld(par, "Some.0")) for c in o.lits):
        R.ok("C18/folder", w, what, enc.span)
        return
    seen = [x for c in o.lits for x in subterms(c) if x.op == "op" and x is not par and contains(x, par)]
    if not seen:
        seen = [y for y in evs if y is not enc and any(contains(x, par) for x in y.args) and not y.name.endswith("create_dir")]
    R.check(None if seen else False, "C18/folder", w, what, enc.span)


def options_ok(P, o, mk_, evs):
    names = [y.name.split("::")[-1] for y in P.events(tup(*o.args, *o.pre)) if "OpenOptions" in y.name]
    ev = {y.name.split("::")[-1]: y for y in P.events(tup(*o.args, *o.pre)) if "OpenOptions" in y.name}
    def on(n):
        return n in ev and any(x is boolc(True) or (x.op == "bool" and x.a[0]) for x in ev[n].args)
    if not names:
        return None
    if on("append"):
        return False
    if on("truncate") or on("create_new"):
        return True
    return False if on("write") else None


FIELDS = ("time", "space", "steps")


def fields_rule(R, ctx, cfg, rel):
    """a result is written with all its fields, each under its own name, and each is known when it is read"""
    w = "interface::Path as Serialize" + rel
    with guard(R, "C18/fields", w):
        b = ctx.find(r"Serialize for mbqc_scheduling::interface::Path>::serialize\b", cfg)
        I, outs = summarise(R, ctx, b, cfg, names=["self", "ser"])
        me = mk("sym", "self")
        for o in outs:
            evs = [e for e in walk(o.events) if isinstance(e, Ev)]
            if o.kind != "ret" or not feasible(o.facts) or not any(re.search(r"SerializeStruct::end$", e.raw or e.name) for e in evs):
                continue
            got = {}
            for e in evs:
                a = list(e.pre or e.args)
                if re.search(r"SerializeStruct::serialize_field$", e.raw or e.name) and len(a) == 3 and a[1].op == "str":
                    got[a[1].a[0]] = (a[2], e.span)
            sp = evs[-1].span
            cond = any(foreign(l, lambda x: x.op in ("ret", "after")) for l in o.lits)
            for n in FIELDS:
                if n in got:
                    v = got[n][0]
                    R.check(True if v is fld(me, n) else False if not foreign(v, lambda x: x is me) else None, "C18/fields", w, "the field %s is written under its name; it is %s" % (n, short(v)), got[n][1])
                else:
                    R.check(None if cond or not got else False, "C18/fields", w, "the field %s is written" % n, sp)
    w = "interface::Path as Deserialize" + rel
    with guard(R, "C18/fields", w):
        v = mk("sym", "v")
        for b in ctx.find(r"for mbqc_scheduling::interface::Path>::deserialize::__FieldVisitor.*::visit_str\b", cfg, many=True):
            I, outs = summarise(R, ctx, b, cfg, names=["self", "v"])
            seen = {}
            for o in outs:
                if o.kind != "ret" or not feasible(o.facts):
                    continue
                n = {z.a[0] for l in o.lits if l.op == "eq" and v in l.a for z in l.a if z.op == "str"}
                if len(n) == 1 and o.ret.op == "agg" and o.ret.a[3]:
                    seen[list(n)[0]] = o.ret.a[3][0]
            for n in FIELDS:
                t = seen.get(n)
                R.check(None if not seen else t is not None and t.op == "agg" and "ignore" not in str(t.a[1]) and sum(u is t for u in seen.values()) == 1,
                        "C18/fields", w, "the field %s is read" % n, b.get("span"))


def c18(R, ctx):
    parallel(R, [("interface::run_serialized" + rel, lambda R, cfg=cfg, rel=rel: file_rule(R, ctx, cfg, rel)) for cfg, rel in CFGS] +
             [("interface::Path" + rel, lambda R, cfg=cfg, rel=rel: fields_rule(R, ctx, cfg, rel)) for cfg, rel in CFGS], "C18")


RULES = {"C17": c17, "C18": c18}

"""Summaries of the standard library and of the external crates, and the dispatch of calls."""
import re

from term import *
from interp import Ev, LockEv, SpawnEv, Unsupported, _intern, guards_in

ITER = "prim::Iter"
HITER = "prim::HIter"
RANGE = "std::ops::Range"
IT_METHODS = set("""map filter filter_map enumerate zip rev copied cloned skip take take_while chain peekable inspect by_ref fuse
for_each fold try_for_each any all find find_map position count sum last nth max min partition partition_map unzip""".split())
MUTATORS = {}


class Panic(Exception):
    pass


# ------------------------------------------------------------------ names
def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


_nm = {}


def owner_method(p):
    """('Vec', 'push') for std::vec::Vec::<T, A>::push; ('[T]', 'iter') for core::slice::<impl [T]>::iter"""
    r = _nm.get(p)
    if r:
        return r
    m = re.search(r"<impl ([^<>]*(?:<.*>)?)>::(\w+)$", p)
    if m and not p.startswith("<"):
        t = m.group(1)
        if " for " in t:
            t = t.split(" for ")[0].split("<")[0].split("::")[-1]
        r = (t.split("::")[-1], m.group(2))
    elif p.startswith("<"):
        m = re.search(r" as ([\w:]+)(<.*>)?>::(\w+)$", p)
        r = (m.group(1).split("::")[-1], m.group(3)) if m else ("?", p.split("::")[-1])
    else:
        s = strip_generics(p).split("::")
        r = (s[-2] if len(s) > 1 else "", s[-1])
    _nm[p] = r
    return r


def head(t):
    """last path segment of a type head without references"""
    t = t.lstrip("&").replace("mut ", "").lstrip("&").replace("mut ", "")
    t = re.sub(r"'\w+ ", "", t)
    return t.split("<")[0].split("::")[-1]


INT = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"}
UINT = {x for x in INT if x[0] == "u"}


def iterv(src, pos, end, mode):
    return agg(ITER, None, ("src", "pos", "end", "mode"), (src, pos, end, mk("str", mode)))


def default_of(ty):
    h = head(ty)
    if h in ("Vec", "String", "[]", "VecDeque"):
        return VEC0
    if h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        return HNEW
    if h in INT:
        return num(0)
    if h == "bool":
        return FALSE
    if h in ("f64", "f32"):
        return mk("float", 0.0)
    if h == "Option":
        return NONE
    if h == "()":
        return UNIT
    return None


# ------------------------------------------------------------------ call context
class C:
    """one call"""

    def __init__(self, I, st, t, stop, outs):
        self.I, self.st, self.t, self.stop, self.outs = I, st, t, stop, outs
        f = st.frames[-1]
        self.frame = f
        self.dest = I.place(st, t["p"])
        self.target = t["t"]
        self.cid = _intern(("call", f.fid, f.bb))
        self.span = t.get("s")
        self.fname = t.get("f", "?")
        self.depth = len(st.frames)

    # finish with a value
    def done(self, v, st=None):
        st = st or self.st
        if self.target is None:
            self.outs.append(("panic", st, None))
            return []
        self.I.write(st, self.dest[0], self.dest[1], v)
        return self.I.goto(st, self.target, self.stop, self.outs)

    # several alternatives: (condition, function(state) -> value or None for a panic)
    def fork(self, alts):
        res = []
        alts = [(c, f) for c, f in alts if c is not FALSE and self.st.facts.decide(c) is not False]
        for i, (c, f) in enumerate(alts):
            s = self.st.copy() if i + 1 < len(alts) else self.st
            if not s.assume(c):
                continue
            v = f(s)
            if v is None:
                self.outs.append(("panic", s, None))
                continue
            res.extend(self.done(v, s))
        return res

    def panic(self):
        self.outs.append(("panic", self.st, None))
        return []

    def val(self, v, st=None):
        """follow mutable references to a value"""
        st = st or self.st
        n = 0
        while v.op == "ref":
            v = self.I.read(st, v.a[1], v.a[2])
            n += 1
            if n > 9:
                raise Unsupported("reference cycle")
        return v

    def place_of(self, v, st=None):
        """the place an innermost mutable reference points to"""
        st = st or self.st
        if v.op != "ref":
            if v.op == "agg" and v.a[0] == "prim::Guard":
                return self.place_of(v.a[3][0], st)
            return ("D", v), ()
        while True:
            x = self.I.read(st, v.a[1], v.a[2])
            if x.op != "ref":
                return v.a[1], v.a[2]
            v = x

    def get(self, v, st=None):
        st = st or self.st
        if v.op == "ref" or (v.op == "agg" and v.a[0] == "prim::Guard"):
            r, p = self.place_of(v, st)
            x = self.I.read(st, r, p)
            return x
        return v

    def set(self, ref, x, st=None):
        st = st or self.st
        r, p = self.place_of(ref, st)
        self.I.write(st, r, p, x)

    def unused(self):
        cfg = self.I.prog_cfg(self.frame.body)
        return self.target is not None and len(self.t["p"]) == 1 and self.t["p"][0] not in cfg.live[self.target]

    # run a body and continue with fin(state, ret) -> list of (state, action)
    def invoke(self, body, args, fin=None, st=None, tag=""):
        st = st or self.st
        f = self.frame
        st.frames[-1] = f
        if fin is None:
            self.I.push(st, body, args, self.dest, self.target, (f.bb, body["key"], tag))
        else:
            self.I.push(st, body, args, None, None, (f.bb, body["key"], tag), fin)
        return self.I.enter(st, self.stop, self.outs)


def finish(c, v):
    return lambda st, ret: [(st, ("val", c, v(st, ret)))]


# ------------------------------------------------------------------ dispatch
def call(I, st, t, stop, outs):
    c = C(I, st, t, stop, outs)
    args = [I.operand(st, a) for a in t["a"]]
    if "f" not in t:
        # function pointer or function item value
        fv = I.operand(st, t["fo"]) if "fo" in t else mk("unk", "fn")
        return call_value(c, fv, args, untuple=False)
    f = t["f"]
    r = t.get("r")
    own, meth = owner_method(f)
    # explicit summaries of the analysis come first
    for pat, h in I.summaries:
        if pat.search(r or f) or pat.search(f):
            x = h(c, args)
            if x is not None:
                return x
    # closures and function values
    if own in ("FnOnce", "FnMut", "Fn") and meth in ("call_once", "call_mut", "call"):
        return call_value(c, args[0], args[1:], untuple=True)
    b = I.body(t["rk"]) if t.get("rk") else None
    local = b is not None and t.get("rkrate") not in ("core", "std", "alloc")
    if local and meth == "clone" and b.get("derived"):
        return c.done(c.get(args[0]))
    if local and b.get("derived") and meth in ("eq", "ne") and own == "PartialEq":
        x = eq(c.get(args[0]), c.get(args[1]))
        return c.done(x if meth == "eq" else neg(x))
    if f == "vmodels::it::again":
        return TABLE[("it", "again")](c, args)
    if local and not I.is_opaque(r or f):
        return c.invoke(b, args)
    if I.is_opaque(r or f):
        return opaque(c, f, args)
    if own == "Iterator" and meth == "next" and "Powerset" in t.get("at", [""])[0]:
        return opaque(c, "Powerset::next", args)
    # iterator protocol, by the value iterated over
    x = iterator(c, own, meth, args)
    if x is not None:
        return x
    h = TABLE.get((own, meth)) or TABLE.get(("*", meth) if own in () else None)
    if h:
        x = h(c, args)
        if x is not None:
            return x
    if b is not None:
        return c.invoke(b, args)
    # trait method on a local type known from the value
    if args:
        v = c.get(args[0])
        if v.op == "agg":
            lb = I.impl_body(v.a[0], own, meth)
            if lb is not None:
                return c.invoke(lb, args)
    if t["t"] is None:
        return c.panic()
    return opaque(c, f, args, unknown=True)


def call_value(c, fv, args, untuple):
    I = c.I
    if untuple:
        a = args[0]
        if a.op == "agg" and a.a[0] == "()":
            args = list(a.a[3])
        else:
            raise Unsupported("argument tuple")
    v = c.get(fv)
    if v.op == "fn":
        b = I.body(v.a[0])
        if b is not None and not I.is_opaque(v.a[1]):
            return c.invoke(b, args)
        # summarised function as a value: build a pseudo call
        return pseudo(c, v.a[1], args)
    if v.op == "ctor":
        adt, var = v.a
        return c.done(agg(adt, var, [str(i) for i in range(len(args))], args))
    if v.op == "agg" and v.a[0].startswith("closure:"):
        b = I.body(v.a[1])
        if b is None:
            raise Unsupported("closure body %s" % v.a[1])
        env = b["locals"][1]["ty"]
        if env.startswith("&mut"):
            if fv.op == "ref":
                r, p = c.place_of(fv)
                env_v = mk("ref", True, r, p)
            else:
                root = ("H", c.cid, "env")
                c.st.store[root] = v
                env_v = mk("ref", True, root, ())
        else:
            env_v = v
        return c.invoke(b, [env_v] + list(args))
    return opaque(c, "call", [v] + list(args), name="call_fn")


def pseudo(c, f, args):
    own, meth = owner_method(f)
    x = iterator(c, own, meth, args)
    if x is not None:
        return x
    h = TABLE.get((own, meth))
    if h:
        x = h(c, args)
        if x is not None:
            return x
    return opaque(c, f, args, unknown=True)


def opaque(c, f, args, unknown=False, name=None, pure=False):
    I, st = c.I, c.st
    n = name or f
    if (PURE.search(f) or pure) and not IMPURE.search(f):
        x = [c.get(a) for a in args]
        if f.startswith("clap::"):
            x.append(mk("str", "<%s>" % ", ".join(c.t.get("fa") or [])))
        return c.done(mk("op", n.split("::")[-1], *x))
    if unknown:
        I.unknown.setdefault(f, c.span)
        UNKNOWN_CIDS.add(c.cid)
    pre = tuple(c.get(a) for a in args)
    ret = mk("ret", c.cid, n)
    ty = c.frame.body["locals"][c.t["p"][0]]["ty"] if len(c.t["p"]) == 1 else ""
    if ty in UINT:
        mark_unsigned(ret)
    ev = Ev(n, tuple(args), ret, c.cid, c.span, pre=pre, fn=c.frame.body["path"], raw=c.t.get("r") or f)
    ev.ty = ty
    ev.fa = tuple(c.t.get("fa") or ())
    at = c.t.get("at", [])
    for i, a in enumerate(args):
        refs = []
        _mutrefs(a, refs, 0)
        for j, rf in enumerate(refs):
            r, p = rf.a[1], rf.a[2]
            I.write(st, r, p, mk("after", c.cid, i if len(refs) == 1 else (i, j)))
    st.ev(ev)
    if c.target is None:
        c.outs.append(("panic", st, None))
        return []
    if ty == "()":
        ret = UNIT
    elif ty == "!":
        return c.panic()
    return c.done(ret)


def _mutrefs(v, out, d):
    if v.op == "ref":
        out.append(v)
    elif v.op == "agg" and d < 4:
        for x in v.a[3]:
            _mutrefs(x, out, d + 1)


IMPURE = re.compile(r"Instant::(now|elapsed)|SystemTime::(now|elapsed)|std::env::|thread::current")
PURE = re.compile(r"""fmt::|^tracing|Duration::|path::|Uniform::|::to_string$|ToString|::as_str$|::as_bytes|std::time::
    |std::string::|core::str|str::<impl|std::ffi|clap::|f64::|f32::|std::any|num::<impl|std::alloc|Ordering::|itertools::Either
    |Itertools::powerset|powerset$|std::error|::size_hint$|std::env|bincode::config""", re.X)


# ------------------------------------------------------------------ iterators
def as_iter(c, v, ty, st=None):
    """IntoIterator"""
    x = v
    if x.op == "ref":
        # a mutable reference: either to a collection (iter_mut) or to an iterator
        y = c.get(x)
        if is_iter(c, y):
            return x
        h = head(ty)
        if h in ("Vec", "[]", "[;]", "VecDeque") or y.op in VECOPS:
            r, p = c.place_of(x)
            return iterv(mk("ref", True, r, p), num(0), length(y), "mut")
        if h in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
            raise Unsupported("map iter_mut")
        if h == "Option":
            return None
        return None
    if is_iter(c, x):
        return x
    h = head(ty)
    if h in ("Vec", "[]", "[;]", "VecDeque", "Box") or x.op in VECOPS:
        return iterv(x, num(0), length(x), "val")
    if h in ("HashMap", "BTreeMap"):
        return agg(HITER, None, ("src", "pos", "mode"), (x, num(0), mk("str", "kv" if h == "HashMap" else "kvsorted")))
    if h in ("HashSet", "BTreeSet"):
        return agg(HITER, None, ("src", "pos", "mode"), (x, num(0), mk("str", "k" if h == "HashSet" else "ksorted")))
    if h == "Option" or (x.op == "agg" and x.a[0].endswith("option::Option")):
        return agg("prim::OptIter", None, ("v",), (x,))
    return None


VECOPS = {"push", "fill", "concat", "gen", "slice", "upd", "arr", "vec0", "rem", "swaprem", "ins", "sorted"}


def is_iter(c, v):
    if v.op != "agg":
        return False
    n = v.a[0]
    return n in (ITER, HITER, "prim::OptIter") or n.startswith("vmodels::it::") or re.search(r"ops::(range::)?Range(From)?$", n) is not None


def prim_next(c, ref, v, back=False):
    """next / next_back of a primitive iterator stored at ref"""
    I = c.I
    n = v.a[0]
    if n == ITER:
        src, pos, end, mode = v.a[3]

        def take(st):
            if back:
                i = add(end, num(-1))
                c.set(ref, agg(ITER, None, v.a[2], (src, pos, i, mode)), st)
            else:
                i = pos
                c.set(ref, agg(ITER, None, v.a[2], (src, add(pos, num(1)), end, mode)), st)
            if mode.a[0] == "mut":
                return some(mk("ref", True, src.a[1], I.norm_path(src.a[2] + (("i", i),))))
            return some(sel(src, i, st.facts))

        return c.fork([(lt(pos, end), take), (le(end, pos), lambda st: NONE)])
    if n == HITER:
        src, pos, mode = v.a[3]

        def take(st):
            c.set(ref, agg(HITER, None, v.a[2], (src, add(pos, num(1)), mode)), st)
            k, x = hkey(src, pos, mode), mk("hvalat", src, pos, mode)
            if mode.a[0].startswith("kv"):
                return some(tup(k, x))
            return some(k if mode.a[0][0] == "k" else x)

        return c.fork([(lt(pos, hlen(src)), take), (le(hlen(src), pos), lambda st: NONE)])
    if n == "prim::OptIter":
        x = v.a[3][0]

        def f(st):
            c.set(ref, agg("prim::OptIter", None, ("v",), (NONE,)), st)
            return x

        return c.done(f(c.st))
    if re.search(r"Range$", n):
        lo, hi = v.a[3]

        def take(st):
            if back:
                i = add(hi, num(-1))
                c.set(ref, mk("agg", n, v.a[1], v.a[2], (lo, i)), st)
            else:
                i = lo
                c.set(ref, mk("agg", n, v.a[1], v.a[2], (add(lo, num(1)), hi)), st)
            return some(i)

        return c.fork([(lt(lo, hi), take), (le(hi, lo), lambda st: NONE)])
    if re.search(r"RangeFrom$", n):
        lo = v.a[3][0]
        c.set(ref, mk("agg", n, v.a[1], v.a[2], (add(lo, num(1)),)), c.st)
        return c.done(some(lo))
    return None


def hkey(src, pos, mode):
    return mk("hkeyat", src, pos, mode)


def iterator(c, own, meth, args):
    I = c.I
    t = c.t
    if own == "IntoIterator" and meth == "into_iter" or (own == "Iterator" and meth == "by_ref"):
        if meth == "by_ref":
            return c.done(args[0])
        b = I.body(t["rk"]) if t.get("rk") else None
        x = as_iter(c, args[0], t["at"][0])
        if x is not None:
            return c.done(x)
        if b is not None:
            return None
        if args[0].op == "agg":
            lb = I.impl_body(args[0].a[0], own, meth)
            if lb is not None:
                return None
        # the blanket implementation: an iterator is its own iterator
        if (t.get("r") or "").startswith("<I as") or "Iter" in head(t["at"][0]) or (t.get("r") is None):
            return c.done(args[0])
        return None
    if own in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "Itertools", "Peekable", "Iter", "IterMut", "IntoIter"):
        if meth in ("next", "next_back", "len") and args:
            ref = args[0]
            if ref.op != "ref":
                if meth == "len" and ref.op == "agg":
                    root = ("H", c.cid, "it")
                    c.st.store[root] = ref
                    ref = mk("ref", True, root, ())
                else:
                    return None
            r, p = c.place_of(ref)
            ref = mk("ref", True, r, p)
            v = I.read(c.st, r, p)
            if v.op != "agg":
                return None
            if v.a[0].startswith("vmodels::it::"):
                tr = "std::iter::Iterator" if meth == "next" else "std::iter::DoubleEndedIterator" if meth == "next_back" else "std::iter::ExactSizeIterator"
                b = I.model_impl(v.a[0], tr, meth)
                if b is None:
                    raise Unsupported("%s of %s" % (meth, v.a[0]))
                return c.invoke(b, [ref])
            if meth == "len":
                if v.a[0] == ITER:
                    return c.done(sub(v.a[3][2], v.a[3][1]))
                if v.a[0].endswith("Range"):
                    return c.fork([(le(v.a[3][0], v.a[3][1]), lambda st: sub(v.a[3][1], v.a[3][0])), (lt(v.a[3][1], v.a[3][0]), lambda st: num(0))])
                if v.a[0] == HITER:
                    return c.done(sub(hlen(v.a[3][0]), v.a[3][1]))
                return None
            if is_iter(c, v):
                return prim_next(c, ref, v, meth == "next_back")
            return None
        if own in ("Iter", "IterMut", "IntoIter") and meth in ("as_slice", "as_ref", "into_slice"):
            v = c.get(args[0])
            if v.op == "agg" and v.a[0] == ITER and v.a[3][3].a[0] == "val":
                return c.done(slice_(v.a[3][0], v.a[3][1], v.a[3][2]))
            return None
        if not args:
            return None
        recv = args[0]
        rv = c.get(recv)
        known = is_iter(c, rv)
        # fast forms on primitive iterators
        if rv is recv and rv.op == "agg" and rv.a[0] == ITER:
            src, pos, end, mode = rv.a[3]
            if meth == "skip":
                n = args[1]
                return c.fork([(le(add(pos, n), end), lambda st: iterv(src, add(pos, n), end, mode.a[0])),
                               (lt(end, add(pos, n)), lambda st: iterv(src, end, end, mode.a[0]))])
            if meth == "take":
                n = args[1]
                return c.fork([(le(add(pos, n), end), lambda st: iterv(src, pos, add(pos, n), mode.a[0])),
                               (lt(end, add(pos, n)), lambda st: iterv(src, pos, end, mode.a[0]))])
            if meth in ("copied", "cloned") and mode.a[0] == "val":
                return c.done(rv)
            if meth == "count":
                return c.done(sub(end, pos))
            if meth in ("collect", "collect_vec") and mode.a[0] == "val" and _colty(c, meth) == "Vec":
                return c.done(slice_(src, pos, end))
        name = meth
        if own == "Peekable":
            m = I.model("vmodels::peekable::" + meth)
            if m is not None:
                return c.invoke(m, args)
            return None
        if own in ("Iterator", "Itertools", "DoubleEndedIterator"):
            if meth in ("collect", "collect_vec"):
                ty = _colty(c, meth)
                name = {"Vec": "collect_vec", "Box": "collect_vec", "HashMap": "collect_map", "BTreeMap": "collect_map", "Option": "collect_option", "Result": "collect_result"}.get(ty)
                if name is None:
                    return None
            if meth == "try_for_each":
                rt = _dest_head(c)
                if rt != "Result":
                    return None
                name = "try_for_each_result"
            if meth in ("max", "min", "sum", "cmp") and not known:
                pass
            m = I.model("vmodels::it::" + name)
            if m is not None:
                # second iterator arguments may be collections
                a = list(args)
                if meth in ("zip", "chain"):
                    x = as_iter(c, a[1], t["at"][1] if len(t.get("at", [])) > 1 else "")
                    if x is not None:
                        a[1] = x
                return c.invoke(m, a)
    return None


def _dest_head(c):
    return head(c.frame.body["locals"][c.t["p"][0]]["h"]) if len(c.t["p"]) == 1 else ""


def _colty(c, meth):
    if meth == "collect_vec":
        return "Vec"
    fh = c.t.get("fh", [])
    return head(fh[-1]) if fh else _dest_head(c)


# ------------------------------------------------------------------ primitives
TABLE = {}


def prim(*names):
    def deco(f):
        for n in names:
            o, m = n.rsplit(".", 1)
            for oo in o.split("|"):
                for mm in m.split("|"):
                    TABLE[(oo, mm)] = f
        return f
    return deco


@prim("Vec|VecDeque|String.new", "Vec|VecDeque|String.with_capacity")
def _(c, a):
    return c.done(VEC0)


@prim("Vec|VecDeque.push", "VecDeque.push_back")
def _(c, a):
    c.set(a[0], vpush(c.get(a[0]), a[1]))
    return c.done(UNIT)


@prim("Vec.pop", "VecDeque.pop_back")
def _(c, a):
    v = c.get(a[0])
    n = length(v)
    i = add(n, num(-1))

    def f(st):
        c.set(a[0], v.a[0] if v.op == "push" else slice_(v, num(0), i), st)
        return some(sel(v, i, st.facts))

    return c.fork([(lt(num(0), n), f), (eq(n, num(0)), lambda st: NONE)])


@prim("Vec|[T]|String|str|VecDeque.len", "HashMap|BTreeMap|HashSet|BTreeSet.len")
def _(c, a):
    v = c.get(a[0])
    if head(c.t["at"][0]) in MAPS:
        return c.done(hlen(v))
    return c.done(length(v))


MAPS = ("HashMap", "BTreeMap", "HashSet", "BTreeSet")


@prim("Vec|[T]|String|str|VecDeque|HashMap|BTreeMap|HashSet|BTreeSet|ExactSizeIterator.is_empty")
def _(c, a):
    v = c.get(a[0])
    if head(c.t["at"][0]) in MAPS:
        return c.done(eq(hlen(v), num(0)))
    if v.op == "agg":
        return None
    return c.done(eq(length(v), num(0)))


@prim("Vec|VecDeque|HashMap|BTreeMap|HashSet|BTreeSet|String.clear")
def _(c, a):
    c.set(a[0], HNEW if head(c.t["at"][0]) in MAPS else VEC0)
    return c.done(UNIT)


@prim("Vec.truncate")
def _(c, a):
    v, n = c.get(a[0]), a[1]

    def f(st):
        c.set(a[0], slice_(v, num(0), n), st)
        return UNIT

    return c.fork([(lt(n, length(v)), f), (le(length(v), n), lambda st: UNIT)])


@prim("Vec.insert")
def _(c, a):
    if len(a) != 3:
        return None
    v = c.get(a[0])
    c.set(a[0], mk("push", v, a[2]) if c.st.facts.decide(eq(a[1], length(v))) is True else mk("ins", v, a[1], a[2]))
    return c.done(UNIT)


@prim("Vec.remove", "Vec.swap_remove")
def _(c, a):
    v, i = c.get(a[0]), a[1]
    op = "rem" if c.fname.endswith("::remove") else "swaprem"
    c.st.assume(lt(i, length(v)))
    x = sel(v, i, c.st.facts)
    n = length(v)
    if i is add(n, num(-1)):
        c.set(a[0], slice_(v, num(0), i))
    elif op == "rem" and intval(i) == 0:
        c.set(a[0], slice_(v, num(1), n))
    else:
        c.set(a[0], mk(op, v, i))
    return c.done(x)


@prim("[T].swap")
def _(c, a):
    v, i, j = c.get(a[0]), a[1], a[2]
    x, y = sel(v, i, c.st.facts), sel(v, j, c.st.facts)
    c.set(a[0], upd(upd(v, i, y), j, x))
    return c.done(UNIT)


def refto(c, ref, e):
    r, p = c.place_of(ref)
    return mk("ref", True, r, c.I.norm_path(p + (e,)))


@prim("[T]|Vec.first", "[T]|Vec.last", "[T].first_mut", "[T].last_mut")
def _(c, a):
    v = c.get(a[0])
    n = length(v)
    i = num(0) if "first" in c.fname.split("::")[-1] else add(n, num(-1))
    mut = c.fname.endswith("_mut")
    return c.fork([(lt(num(0), n), lambda st: some(refto(c, a[0], ("i", i)) if mut else sel(v, i, st.facts))), (eq(n, num(0)), lambda st: NONE)])


@prim("[T].split_first", "[T].split_last")
def _(c, a):
    v = c.get(a[0])
    n = length(v)
    if c.fname.endswith("first"):
        r = lambda st: some(tup(sel(v, num(0), st.facts), slice_(v, num(1), n)))
    else:
        r = lambda st: some(tup(sel(v, add(n, num(-1)), st.facts), slice_(v, num(0), add(n, num(-1)))))
    return c.fork([(lt(num(0), n), r), (eq(n, num(0)), lambda st: NONE)])


@prim("[T].split_at", "[T].split_at_mut")
def _(c, a):
    v, i = c.get(a[0]), a[1]
    n = length(v)
    c.st.assume(le(i, n))
    if c.fname.endswith("_mut"):
        return c.done(tup(refto(c, a[0], ("sub", num(0), i)), refto(c, a[0], ("sub", i, n))))
    return c.done(tup(slice_(v, num(0), i), slice_(v, i, n)))


def range_of(x, n):
    """(lo, hi) of a range value, or None"""
    if x.op != "agg":
        return None
    k = x.a[0].split("::")[-1]
    if k == "Range":
        return x.a[3][0], x.a[3][1]
    if k == "RangeFrom":
        return x.a[3][0], n
    if k == "RangeTo":
        return num(0), x.a[3][0]
    if k == "RangeFull":
        return num(0), n
    if k == "RangeToInclusive":
        return num(0), add(x.a[3][0], num(1))
    if k == "RangeInclusive" and len(x.a[3]) >= 2:
        return x.a[3][0], add(x.a[3][1], num(1))
    return None


@prim("Index.index", "IndexMut.index_mut")
def _(c, a):
    h = head(c.t["at"][0])
    if h in ("HashMap", "BTreeMap"):
        m = c.get(a[0])
        c.st.assume(has(m, a[1], c.st.facts))
        return c.done(hget(m, a[1], c.st.facts))
    v = c.get(a[0])
    n = length(v)
    mut = c.fname.endswith("_mut")
    rg = range_of(a[1], n)
    if rg is None and a[1].op == "agg":
        return None
    ok_ = True
    if rg is not None:
        lo, hi = rg
        ok_ = c.st.assume(le(lo, hi)) and c.st.assume(le(hi, n))
        x = refto(c, a[0], ("sub", lo, hi)) if mut else slice_(v, lo, hi)
    else:
        ok_ = c.st.assume(lt(a[1], n))
        x = refto(c, a[0], ("i", a[1])) if mut else sel(v, a[1], c.st.facts)
    if not ok_:
        return c.panic()
    return c.done(x)


@prim("[T]|Vec.get", "[T]|Vec.get_mut")
def _(c, a):
    v, i = c.get(a[0]), a[1]
    n = length(v)
    mut = c.fname.endswith("_mut")
    rg = range_of(i, n)
    if rg is not None:
        lo, hi = rg
        return c.fork([(conj(le(lo, hi), le(hi, n)), lambda st: some(refto(c, a[0], ("sub", lo, hi)) if mut else slice_(v, lo, hi))),
                       (neg(conj(le(lo, hi), le(hi, n))), lambda st: NONE)])
    if i.op == "agg":
        return None
    return c.fork([(lt(i, n), lambda st: some(refto(c, a[0], ("i", i)) if mut else sel(v, i, st.facts))), (le(n, i), lambda st: NONE)])


@prim("[T].get_unchecked", "[T].get_unchecked_mut")
def _(c, a):
    v, i = c.get(a[0]), a[1]
    if i.op == "agg":
        return None
    return c.done(refto(c, a[0], ("i", i)) if c.fname.endswith("_mut") else sel(v, i, c.st.facts))


@prim("Vec.append")
def _(c, a):
    c.set(a[0], concat(c.get(a[0]), c.get(a[1])))
    c.set(a[1], VEC0)
    return c.done(UNIT)


@prim("Extend.extend", "Vec.extend_from_slice")
def _(c, a):
    if head(c.t["at"][0]) in ("HashMap", "BTreeMap", "HashSet"):
        return None
    x = as_iter(c, a[1], c.t["at"][1])
    if x is None:
        x = a[1]
    if x.op == "agg" and x.a[0] == ITER and x.a[3][3].a[0] == "val":
        c.set(a[0], concat(c.get(a[0]), slice_(x.a[3][0], x.a[3][1], x.a[3][2])))
        return c.done(UNIT)
    m = c.I.model("vmodels::slice::extend")
    return c.invoke(m, [a[0], x])


@prim("Vec.drain")
def _(c, a):
    v = c.get(a[0])
    n = length(v)
    rg = range_of(a[1], n)
    if rg is None:
        return None
    lo, hi = rg
    c.set(a[0], concat(slice_(v, num(0), lo), slice_(v, hi, n)))
    return c.done(iterv(v, lo, hi, "val"))


@prim("Vec.split_off")
def _(c, a):
    v = c.get(a[0])
    c.set(a[0], slice_(v, num(0), a[1]))
    return c.done(slice_(v, a[1], length(v)))


@prim("Vec.resize")
def _(c, a):
    v, n, x = c.get(a[0]), a[1], a[2]

    def grow(st):
        c.set(a[0], concat(v, mk("fill", x, sub(n, length(v)))), st)
        return UNIT

    def cut(st):
        c.set(a[0], slice_(v, num(0), n), st)
        return UNIT

    return c.fork([(le(length(v), n), grow), (lt(n, length(v)), cut)])


@prim("vec.from_elem")
def _(c, a):
    return c.done(mk("fill", a[0], a[1]))


@prim("[T].into_vec", "[T].to_vec", "ToOwned.to_owned", "Vec|String|str|Path|PathBuf.as_slice|as_str|as_path|as_ref|into_boxed_slice|to_path_buf|into_string",
      "Clone.clone", "Deref.deref", "Borrow.borrow", "AsRef.as_ref", "Option.as_deref", "Option.as_ref",
      "Option|Result.copied|cloned", "Arc|Rc|Box.new", "Arc|Rc.clone", "Box.leak", "Arc.as_ref", "Box.as_ref", "hint.black_box", "Box.into_inner",
      "From.from", "Into.into", "convert.identity", "String.as_str", "Wrapping.new", "Reverse.new")
def _(c, a):
    own, meth = owner_method(c.fname)
    if not a:
        return None
    if meth == "from":
        h = [head(x) for x in c.t.get("fh", [])]
        if len(h) >= 2 and h[0] in ("HashMap", "BTreeMap", "Mutex"):
            return None
        if h and h[0] in INT and len(h) > 1 and h[1] == "bool":
            return c.done(b2i(a[0]))
        if h and h[0] in ("f64", "f32") and len(h) > 1 and h[1] in INT:
            return c.done(mk("float", float(intval(a[0]))) if isnum(a[0]) else mk("i2f", a[0]))
    v = a[0]
    if meth == "clone":
        # cloning an iterator or a value copies it; counted references share it
        v = c.get(v)
        return c.done(v)
    if v.op == "agg" and v.a[0] == "prim::Guard":
        return c.done(c.get(v))
    if v.op == "agg" and v.a[0] == ITER and meth == "as_ref":
        return c.done(slice_(v.a[3][0], v.a[3][1], v.a[3][2]))
    return c.done(v)


@prim("DerefMut.deref_mut", "Borrow.borrow_mut", "AsMut.as_mut", "Vec.as_mut_slice")
def _(c, a):
    v = c.get(a[0]) if a[0].op == "ref" else a[0]
    x = a[0]
    # a guard stored in a local
    if a[0].op == "ref":
        y = c.I.read(c.st, a[0].a[1], a[0].a[2])
        if y.op == "agg" and y.a[0] == "prim::Guard":
            return c.done(y.a[3][0])
        r, p = c.place_of(a[0])
        return c.done(mk("ref", True, r, p))
    return c.done(x)


@prim("mem.replace")
def _(c, a):
    v = c.get1(a[0])
    c.set1(a[0], a[1])
    return c.done(v)


def _get1(self, ref, st=None):
    """exactly one dereference"""
    st = st or self.st
    if ref.op == "ref":
        return self.I.read(st, ref.a[1], ref.a[2])
    return self.I.read(st, ("D", ref), ())


def _set1(self, ref, v, st=None):
    st = st or self.st
    if ref.op == "ref":
        self.I.write(st, ref.a[1], ref.a[2], v)
    else:
        self.I.write(st, ("D", ref), (), v)


C.get1, C.set1 = _get1, _set1


@prim("mem.take")
def _(c, a):
    v = c.get1(a[0])
    d = default_of(c.t["fh"][0])
    if d is None:
        d = mk("op", "default", mk("str", str(c.t["fh"][0])))
    c.set1(a[0], d)
    return c.done(v)


@prim("mem.swap")
def _(c, a):
    x, y = c.get1(a[0]), c.get1(a[1])
    c.set1(a[0], y)
    c.set1(a[1], x)
    return c.done(UNIT)


@prim("mem.drop")
def _(c, a):
    for g in guards_in(a[0]):
        c.I.unlock(c.st, g, c.span)
    return c.done(UNIT)


@prim("mem.forget")
def _(c, a):
    return c.done(UNIT)


@prim("Default.default")
def _(c, a):
    d = default_of(c.t["fh"][0]) if c.t.get("fh") else None
    if d is None:
        return None
    return c.done(d)


# ------------------------------------------------------------------ comparison and arithmetic
def _heads(c):
    return [head(x) for x in c.t.get("at", [])]


@prim("cmp|Ord.max|min")
def _(c, a):
    x, y = a[0], a[1]
    h = _heads(c)
    if not (h and (h[0] in INT)):
        return c.done(mk("op", owner_method(c.fname)[1], x, y))
    if c.fname.endswith("max"):
        return c.fork([(le(x, y), lambda st: y), (lt(y, x), lambda st: x)])
    return c.fork([(le(x, y), lambda st: x), (lt(y, x), lambda st: y)])


@prim("usize|u8|u16|u32|u64|i32|i64|isize.saturating_sub")
def _(c, a):
    if c.fname.find("<impl u") < 0:
        return c.done(sub(a[0], a[1]))
    mark_unsigned(a[0])
    mark_unsigned(a[1])
    return c.fork([(le(a[1], a[0]), lambda st: sub(a[0], a[1])), (lt(a[0], a[1]), lambda st: num(0))])


@prim("usize|u8|u16|u32|u64|i32|i64|isize.checked_sub")
def _(c, a):
    if c.fname.find("<impl u") < 0:
        return c.done(some(sub(a[0], a[1])))
    mark_unsigned(a[0])
    mark_unsigned(a[1])
    return c.fork([(le(a[1], a[0]), lambda st: some(sub(a[0], a[1]))), (lt(a[0], a[1]), lambda st: NONE)])


@prim("usize|u8|u16|u32|u64|i32|i64|isize.checked_add")
def _(c, a):
    return c.done(some(add(a[0], a[1])))


@prim("usize|u8|u16|u32|u64|i32|i64|isize.wrapping_add|saturating_add|unchecked_add|strict_add")
def _(c, a):
    return c.done(add(a[0], a[1]))


@prim("usize|u8|u16|u32|u64|i32|i64|isize.wrapping_sub|unchecked_sub|strict_sub")
def _(c, a):
    return c.done(sub(a[0], a[1]))


@prim("usize|u8|u16|u32|u64|i32|i64|isize.wrapping_mul|saturating_mul")
def _(c, a):
    return c.done(mul(a[0], a[1]))


@prim("usize|u8|u16|u32|u64.abs_diff")
def _(c, a):
    return c.fork([(le(a[1], a[0]), lambda st: sub(a[0], a[1])), (lt(a[0], a[1]), lambda st: sub(a[1], a[0]))])


@prim("Ord.cmp", "PartialOrd.partial_cmp")
def _(c, a):
    h = _heads(c)
    if not h or h[0] not in INT and not h[0].endswith("Duration"):
        return None if not h or h[0] not in ("f64", "f32") else c.done(mk("op", "partial_cmp", c.get(a[0]), c.get(a[1])))
    x, y = c.get(a[0]), c.get(a[1])
    w = some if c.fname.endswith("partial_cmp") else (lambda v: v)
    return c.fork([(lt(x, y), lambda st: w(ordering("Less"))), (eq(x, y), lambda st: w(ordering("Equal"))), (lt(y, x), lambda st: w(ordering("Greater")))])


@prim("PartialOrd.lt|le|gt|ge")
def _(c, a):
    h = _heads(c)
    x, y = c.get(a[0]), c.get(a[1])
    m = owner_method(c.fname)[1]
    if h and (h[0] in INT or h[0].endswith("Duration")):
        return c.done({"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[m])
    if h and h[0] in ("f64", "f32"):
        return c.done({"lt": mk("flt", x, y), "le": mk("fle", x, y), "gt": mk("flt", y, x), "ge": mk("fle", y, x)}[m])
    return None


@prim("Div.div", "Mul.mul", "Add.add", "Sub.sub", "Rem.rem")
def _(c, a):
    h = _heads(c)
    if h and h[0].endswith("Duration"):
        return c.done(mk("op", owner_method(c.fname)[1], c.get(a[0]), c.get(a[1])))
    return None


NANOS = {"from_secs": 10 ** 9, "from_millis": 10 ** 6, "from_micros": 1000, "from_nanos": 1}


@prim("Duration.from_secs|from_millis|from_micros|from_nanos|new|is_zero")
def _(c, a):
    """a duration is a number of nanoseconds"""
    m = owner_method(c.fname)[1]
    x = c.get(a[0])
    if m == "is_zero":
        return c.done(eq(x, num(0)))
    if m == "new":
        y = c.get(a[1])
        if isnum(x) and isnum(y):
            return c.done(num(x.a[0] * 10 ** 9 + y.a[0]))
        if x.op == "op" and y.op == "op" and x.a[0] == "as_secs" and y.a[0] == "subsec_nanos" and x.a[1] == y.a[1]:
            return c.done(x.a[1])
        return None
    if isnum(x):
        return c.done(num(x.a[0] * NANOS[m]))
    if m == "from_nanos" and x.op == "op" and x.a[0] == "as_nanos":
        return c.done(x.a[1])
    return None


@prim("PartialEq.eq|ne")
def _(c, a):
    x, y = c.get(a[0]), c.get(a[1])
    h = _heads(c)
    if h and h[0] in ("f64", "f32"):
        e = mk("feq", *sorted((x, y)))
    else:
        e = eq(x, y)
    return c.done(e if c.fname.endswith("::eq") else neg(e))


@prim("f64|f32.max|min")
def _(c, a):
    return c.done(mk("f" + owner_method(c.fname)[1], *sorted(a)))


@prim("f64|f32.powi|powf|exp|ln|sqrt|abs|floor|ceil|recip|exp_m1|mul_add|exp2")
def _(c, a):
    m = owner_method(c.fname)[1]
    if m == "mul_add":
        return c.done(mk("fadd", *sorted((mk("fmul", *sorted((a[0], a[1]))), a[2]))))
    return c.done(mk(m, *a))


@prim("[T].contains", "Vec.contains")
def _(c, a):
    return c.done(isin(c.get(a[1]), c.get(a[0])))


@prim("[T].binary_search")
def _(c, a):
    # finds a member for certain only in a sorted slice
    v, x = c.get(a[0]), c.get(a[1])
    y = v
    while y.op == "upd":
        y = y.a[0]
    found = isin(x, v) if y.op == "sorted" else mk("bsfound", x, v)
    i = mk("bsidx", x, v)
    return c.fork([(found, lambda st: agg("core::result::Result", "Ok", ("0",), (i,))), (neg(found), lambda st: agg("core::result::Result", "Err", ("0",), (i,)))])


def isin(x, v):
    if v.op == "vec0":
        return FALSE
    return mk("in", x, v)


@prim("[T].sort", "[T].sort_unstable", "[T].sort_by_key|sort_unstable_by_key|sort_by_cached_key", "[T].sort_by|sort_unstable_by", "[T].dedup", "[T].reverse")
def _(c, a):
    v = c.get(a[0])
    m = owner_method(c.fname)[1]
    if m == "reverse":
        c.set(a[0], mk("reversed", v))
        return c.done(UNIT)
    if m in ("sort", "sort_unstable"):
        c.set(a[0], mk("sorted", v, mk("str", "self"), BV))
        return c.done(UNIT)
    if "key" in m:
        x = mk("elem", 0)
        r = c.I.sub_run(c, a[1], [x])
        if r is None or len(r) != 1:
            return None
        c.set(a[0], mk("sorted", v, mk("str", "key"), r[0].result))
        return c.done(UNIT)
    x, y = mk("elem", 0), mk("elem", 1)
    r = c.I.sub_run(c, a[1], [x, y])
    if r is None:
        return None
    from interp import unlist
    cases = tuple((tuple(unlist(s.lits, c.st.lits)), s.result) for s in r)
    c.set(a[0], mk("sorted", v, mk("str", "cmp"), cases))
    return c.done(UNIT)


@prim("[T]|Vec.iter|iter_mut|into_iter", "VecDeque.iter", "Option.iter")
def _(c, a):
    x = as_iter(c, a[0], c.t["at"][0])
    return c.done(x) if x is not None else None


@prim("[T].fill")
def _(c, a):
    n = length(c.get(a[0]))
    if a[0].op == "ref" and not (a[0].a[2] and a[0].a[2][-1][0] == "sub"):
        c.set(a[0], mk("fill", a[1], n))
        return c.done(UNIT)
    return c.invoke(c.I.model("vmodels::slice::fill"), a)


@prim("Vec.retain")
def _(c, a):
    return c.invoke(c.I.model("vmodels::slice::retain"), a)


@prim("[T].partition_point")
def _(c, a):
    return c.invoke(c.I.model("vmodels::slice::partition_point"), a)


@prim("RangeInclusive.new")
def _(c, a):
    return c.done(agg(RANGE, None, ("start", "end"), (a[0], add(a[1], num(1)))))


@prim("Range.is_empty")
def _(c, a):
    v = c.get(a[0])
    return c.done(le(v.a[3][1], v.a[3][0])) if v.op == "agg" else None


@prim("Range.contains", "RangeFrom.contains")
def _(c, a):
    v, x = c.get(a[0]), c.get(a[1])
    if v.op == "agg" and v.a[0].endswith("Range"):
        if isfloat(c, v.a[3][:2] + (x,)):
            return c.done(conj(mk("fle", v.a[3][0], x), mk("flt", x, v.a[3][1])))
        return c.done(conj(le(v.a[3][0], x), lt(x, v.a[3][1])))
    return None


@prim("RangeInclusive.contains")
def _(c, a):
    v, x = c.get(a[0]), c.get(a[1])
    if v.op == "agg" and v.a[0].endswith("RangeInclusive") and v.a[3][2] is FALSE:
        if isfloat(c, v.a[3][:2] + (x,)):
            return c.done(conj(mk("fle", v.a[3][0], x), mk("fle", x, v.a[3][1])))
        return c.done(conj(le(v.a[3][0], x), le(x, v.a[3][1])))
    return None


def isfloat(c, xs):
    return any(re.search(r"\bf(64|32)\b", str(t)) for t in c.t.get("fa") or ()) or any(x.op in ("float", "i2f", "fadd", "fsub", "fmul", "fdiv") for x in xs)


# ------------------------------------------------------------------ maps
@prim("HashMap|BTreeMap|HashSet|BTreeSet.new|with_capacity|with_hasher|with_capacity_and_hasher")
def _(c, a):
    return c.done(HNEW)


@prim("HashMap|BTreeMap.get", "HashMap|BTreeMap.get_mut", "HashMap|BTreeMap.get_key_value")
def _(c, a):
    m, k = c.get(a[0]), c.get(a[1])
    h = has(m, k, c.st.facts)
    if c.fname.endswith("_mut"):
        return c.fork([(h, lambda st: some(refto(c, a[0], ("key", k)))), (neg(h), lambda st: NONE)])
    if c.fname.endswith("_value"):
        return c.fork([(h, lambda st: some(tup(k, hget(m, k, st.facts)))), (neg(h), lambda st: NONE)])
    return c.fork([(h, lambda st: some(hget(m, k, st.facts))), (neg(h), lambda st: NONE)])


@prim("HashMap|BTreeMap|HashSet|BTreeSet.contains_key|contains")
def _(c, a):
    return c.done(has(c.get(a[0]), c.get(a[1]), c.st.facts))


@prim("HashMap|BTreeMap|HashSet|BTreeSet.insert")
def _(c, a):
    m, k = c.get(a[0]), a[1]
    v = a[2] if len(a) > 2 else UNIT
    c.set(a[0], hput(m, k, v))
    if len(a) == 2:
        return c.done(neg(has(m, k, c.st.facts)))
    return c.done(mk("hold", m, k))


@prim("HashMap|BTreeMap|HashSet|BTreeSet.remove")
def _(c, a):
    m, k = c.get(a[0]), c.get(a[1])
    c.set(a[0], hdel( m, k))
    if "Set" in c.t["at"][0]:
        return c.done(has(m, k, c.st.facts))
    d = c.st.facts.decide(has(m, k, c.st.facts))
    if d is True:
        return c.done(some(hget(m, k, c.st.facts)))
    if d is False:
        return c.done(NONE)
    return c.done(mk("hold", m, k))


@prim("HashMap|BTreeMap.entry")
def _(c, a):
    return c.done(agg("prim::Entry", None, ("map", "key"), (a[0], a[1])))


@prim("Entry.or_insert", "Entry.or_insert_with", "Entry.or_default", "Entry.or_insert_with_key")
def _(c, a):
    e = a[0]
    if e.op != "agg" or e.a[0] != "prim::Entry":
        return None
    ref, k = e.a[3]
    m = c.get(ref)
    h = has(m, k, c.st.facts)
    meth = owner_method(c.fname)[1]
    here = lambda st: refto(c, ref, ("key", k))
    if meth in ("or_insert_with", "or_insert_with_key"):
        res = []
        s2 = c.st.copy()
        if c.st.facts.decide(h) is not False and c.st.assume(h):
            res += c.done(here(c.st), c.st)
        if s2.assume(neg(h)):
            r = c.I.sub_run(c, a[1], [] if meth == "or_insert_with" else [k], st=s2)
            for s in r or []:
                s.frames = list(s2.frames)
                c.set(ref, hput(m, k, s.result), s)
                s.result = None
                res += c.done(here(s), s)
        return res
    if meth == "or_default":
        d = default_of(c.t["fh"][1] if len(c.t.get("fh", [])) > 1 else "")
        if d is None:
            return None
        v = d
    else:
        v = a[1]

    def ins(st):
        c.set(ref, hput(m, k, v), st)
        return here(st)

    return c.fork([(h, here), (neg(h), ins)])


@prim("HashMap|BTreeMap|HashSet|BTreeSet.iter|into_iter|keys|values|into_keys|into_values|drain")
def _(c, a):
    meth = owner_method(c.fname)[1]
    h = head(c.t["at"][0])
    m = c.get(a[0])
    mode = "k" if "keys" in meth else "v" if "values" in meth else ("kv" if "Map" in h else "k")
    if h.startswith("BTree"):
        mode += "sorted"
    if meth == "drain":
        c.set(a[0], HNEW)
    return c.done(agg(HITER, None, ("src", "pos", "mode"), (m, num(0), mk("str", mode))))


# ------------------------------------------------------------------ boxes
@prim("Box|Arc|Rc.new_uninit")
def _(c, a):
    root = ("H", c.cid)
    c.st.store[root] = mk("uninit", c.cid)
    return c.done(mk("ref", True, root, ()))


@prim("boxed.box_assume_init_into_vec_unsafe", "Box.assume_init")
def _(c, a):
    return c.done(c.get(a[0]))


@prim("Box.write", "MaybeUninit.write")
def _(c, a):
    c.set1(a[0], a[1])
    return c.done(a[0])


# ------------------------------------------------------------------ synchronisation
def mutex(init, cid):
    return agg("prim::Mutex", None, ("id", "init"), (mk("mutex", cid), init))


@prim("Mutex|RwLock.new")
def _(c, a):
    m = mutex(a[0], c.cid)
    c.st.store[("M", m.a[3][0])] = a[0]
    c.I.mutexes[m.a[3][0]] = a[0]
    return c.done(m)


def mutex_id(v):
    if v.op == "agg" and v.a[0] == "prim::Mutex":
        return v.a[3][0]
    return v


@prim("Mutex.lock|try_lock|get_mut", "RwLock.write|read")
def _(c, a):
    meth = owner_method(c.fname)[1]
    mid = mutex_id(c.get(a[0]))
    root = ("M", mid)
    if meth == "get_mut":
        return c.done(ok(mk("ref", True, root, ())))

    def take(st):
        content = mk("locked", mid, c.cid)
        st.store[root] = content
        st.ev(LockEv("lock", mid, content, c.span))
        return ok(agg("prim::Guard", None, ("ref", "mid"), (mk("ref", True, root, ()), mid)))

    if meth == "try_lock":
        b = mk("ret", c.cid, "try_lock")
        return c.fork([(b, take), (neg(b), lambda st: err(mk("op", "wouldblock")))])
    return c.done(take(c.st))


@prim("Mutex|RwLock.into_inner")
def _(c, a):
    v = a[0]
    mid = mutex_id(v)
    return c.done(ok(mk("mfinal", mid)))


@prim("PoisonError.into_inner")
def _(c, a):
    return c.done(a[0])


@prim("Condvar.new")
def _(c, a):
    return c.done(agg("prim::Condvar", None, ("id",), (mk("condvar", c.cid),)))


@prim("Condvar.wait|wait_while|wait_timeout|wait_timeout_while|wait_timeout_ms")
def _(c, a):
    meth = owner_method(c.fname)[1]
    g = a[1]
    if g.op != "agg" or g.a[0] != "prim::Guard":
        return None
    ref, mid = g.a[3]
    root = ("M", mid)
    before = c.I.read(c.st, root, ())
    c.st.ev(LockEv("unlock", mid, before, c.span))
    content = mk("locked", mid, c.cid)
    c.st.store[root] = content
    cases = None
    if meth.endswith("while"):
        f = a[3] if "timeout" in meth else a[2]
        r = c.I.sub_run(c, f, [mk("ref", True, root, ())])
        from interp import unlist
        cases = [(unlist(s.lits, c.st.lits), s.result, s.store.get(root)) for s in (r or [])]
    timed = mk("ret", c.cid, "timed_out")
    ev = Ev("condvar." + meth, (c.get(a[0]), mid) + ((a[2],) if "timeout" in meth else ()), timed, c.cid, c.span, fn=c.frame.body["path"])
    ev.cases = cases
    ev.content = content
    ev.before = before
    c.st.ev(ev)
    c.st.ev(LockEv("lock", mid, content, c.span))
    if meth in ("wait", "wait_while"):
        return c.done(ok(g))
    return c.done(ok(tup(g, agg("prim::WaitTimeout", None, ("t",), (timed,)))))


@prim("WaitTimeoutResult.timed_out")
def _(c, a):
    v = c.get(a[0])
    if v.op == "agg":
        return c.done(v.a[3][0])
    return None


@prim("Condvar.notify_all|notify_one")
def _(c, a):
    c.st.ev(Ev("condvar." + owner_method(c.fname)[1], (c.get(a[0]),), UNIT, c.cid, c.span, fn=c.frame.body["path"]))
    return c.done(UNIT)


def _atomic(c, a):
    v = c.get(a[0])
    return v.a[3][0] if v.op == "agg" and v.a[0] == "prim::Atomic" else v


@prim("Atomic|AtomicBool|AtomicUsize|AtomicU64|AtomicI64.new")
def _(c, a):
    return c.done(agg("prim::Atomic", None, ("id", "init"), (mk("atomic", c.cid), a[0])))


@prim("Atomic|AtomicBool|AtomicUsize|AtomicU64|AtomicI64.load|store|swap|fetch_add|fetch_sub|fetch_min|fetch_max|fetch_or|fetch_and|compare_exchange|compare_exchange_weak|fetch_update")
def _(c, a):
    meth = owner_method(c.fname)[1]
    ret = mk("ret", c.cid, "atomic." + meth)
    c.st.ev(Ev("atomic." + meth, (_atomic(c, a),) + tuple(a[1:]), ret, c.cid, c.span, fn=c.frame.body["path"]))
    return c.done(UNIT if meth == "store" else ret)


def spawn(c, closure, how, args=()):
    s = c.st.copy()
    mark = s.trace
    r = c.I.sub_run(c, closure, list(args), st=s, raw=True)
    ev = SpawnEv(how, r, c.span, c.st, c.cid)
    ev.mark = mark
    ev.lits0 = c.st.lits
    ev.fn = c.frame.body["path"]
    ev.closure = closure
    c.st.ev(ev)
    return ev


@prim("thread.spawn")
def _(c, a):
    spawn(c, a[0], "thread")
    return c.done(agg("prim::Join", None, ("id",), (mk("thread", c.cid),)))


@prim("JoinHandle|ScopedJoinHandle.join")
def _(c, a):
    c.st.ev(Ev("thread.join", (a[0],), UNIT, c.cid, c.span, fn=c.frame.body["path"]))
    return c.done(ok(UNIT))


@prim("thread.sleep|park|park_timeout|yield_now|sleep_ms")
def _(c, a):
    c.st.ev(Ev("thread." + c.fname.split("::")[-1], tuple(a), UNIT, c.cid, c.span, fn=c.frame.body["path"]))
    return c.done(UNIT)


@prim("Pool.new")
def _(c, a):
    return c.done(agg("prim::Pool", None, ("n", "id"), (a[0], mk("pool", c.cid))))


@prim("Pool.scoped")
def _(c, a):
    return scoped(c, a[1], "pool", c.get(a[0]))


@prim("thread.scope")
def _(c, a):
    return scoped(c, a[0], "thread", UNIT)


def scoped(c, closure, how, pool):
    c.st.ev(Ev("scope.begin", (pool,), UNIT, c.cid, c.span, fn=c.frame.body["path"]))
    scope = agg("prim::Scope", None, ("id",), (mk("scope", c.cid),))

    def fin(st, ret):
        st.ev(Ev("scope.join", (pool,), UNIT, c.cid, c.span, fn=c.frame.body["path"]))
        return [(st, ("val", c, ret))]

    v = c.get(closure)
    b = c.I.body(v.a[1]) if v.op == "agg" else None
    if b is None:
        raise Unsupported("scope closure")
    env = v
    if b["locals"][1]["ty"].startswith("&mut"):
        root = ("H", c.cid, "env")
        c.st.store[root] = v
        env = mk("ref", True, root, ())
    return c.invoke(b, [env, scope], fin=fin)


@prim("Scope.execute", "Scope.spawn")
def _(c, a):
    args = []
    v = c.get(a[1])
    b = c.I.body(v.a[1]) if v.op == "agg" else None
    if b is not None and b["argc"] > 1:
        args = [a[0]]
    spawn(c, a[1], "scope", args)
    return c.done(agg("prim::Join", None, ("id",), (mk("thread", c.cid),)))


# ------------------------------------------------------------------ random numbers
@prim("SeedableRng.seed_from_u64|from_seed")
def _(c, a):
    return c.done(mk("op", "rng_seed", a[0]))


@prim("SeedableRng.from_entropy|from_os_rng", "rand.thread_rng", "rand.random", "rngs.thread_rng", "rng.thread_rng", "Uuid.new_v4")
def _(c, a):
    ret = mk("ret", c.cid, "entropy")
    c.st.ev(Ev("entropy", (), ret, c.cid, c.span, fn=c.frame.body["path"]))
    return c.done(ret)


def draw(c, rng, what):
    pre = c.get(rng)
    ret = mk("ret", c.cid, "draw")
    c.st.ev(Ev("draw", what, ret, c.cid, c.span, pre=(pre,), fn=c.frame.body["path"]))
    if rng.op == "ref":
        c.set(rng, mk("rngnext", pre))
    return c.done(ret)


@prim("Rng|RngCore.gen|next_u64|next_u32|gen_range|gen_bool|sample|gen_ratio|random|random_range")
def _(c, a):
    return draw(c, a[0], (mk("str", owner_method(c.fname)[1]), mk("str", ",".join(c.t.get("fh", [])[-1:]))) + tuple(a[1:]))


@prim("Distribution.sample")
def _(c, a):
    return draw(c, a[1], (mk("str", "sample"), mk("str", "f64"), c.get(a[0])))


@prim("Uniform.new|new_inclusive|from")
def _(c, a):
    return c.done(mk("op", "uniform." + owner_method(c.fname)[1], *a))


# ------------------------------------------------------------------ process and panics
@prim("process.exit", "process.abort")
def _(c, a):
    c.st.ev(Ev("exit", tuple(a), UNIT, c.cid, c.span, fn=c.frame.body["path"]))
    c.outs.append(("exit_process", c.st, None))
    return []


@prim("hint.unreachable_unchecked", "intrinsics.unreachable")
def _(c, a):
    return []


@prim("it.again")
def _(c, a):
    """vmodels: restart the enclosing loop with the next element"""
    st, stop = c.st, c.stop
    if not stop or len(st.frames) <= stop[0]:
        raise Unsupported("filtering iterator outside of a loop")
    for f in st.frames[stop[0]:]:
        if re.search(r"it::(Zip|Peekable|Chain)\b|peekable::", f.body["path"]):
            raise Unsupported("filtering iterator below " + f.body["path"])
    while len(st.frames) > stop[0]:
        f = st.frames.pop()
        c.I.clean(st, f.fid)
    c.outs.append(("back", st, stop[1]))
    return []

"""Abstract interpreter over dumped MIR.

Domain: store of value-numbered terms (term.py), path facts, and a trace of events that cannot be
expressed as values (opaque calls, locks, spawned tasks, loops). Paths are kept apart (trace partitioning);
every loop is summarised once, by havocking what its body changes, recognising induction variables, and
recording the effect of one arbitrary iteration. Nothing is executed and nothing is unrolled."""
import re
import sys

from term import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


class Frame:
    __slots__ = ("fid", "body", "bb", "dest", "target", "cont")

    def __init__(self, fid, body, bb, dest, target, cont=None):
        self.fid, self.body, self.bb, self.dest, self.target, self.cont = fid, body, bb, dest, target, cont

    def at(self, bb):
        return Frame(self.fid, self.body, bb, self.dest, self.target, self.cont)


class St:
    """one abstract state; forked by copying"""
    __slots__ = ("store", "frames", "facts", "lits", "trace", "result", "unk")

    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.frames = list(self.frames)
        s.facts, s.lits, s.trace, s.result, s.unk = self.facts, self.lits, self.trace, self.result, self.unk
        return s

    def ev(self, e):
        self.trace = (self.trace, e)

    def assume(self, c, val=True):
        """returns False when contradictory"""
        if not val:
            c = neg(c)
        if self.facts.decide(c) is True:
            return True
        f = self.facts.assume(c)
        if f is None:
            return False
        self.facts = f
        self.lits = (self.lits, c)
        return True


def unlist(l, stop=None):
    r = []
    while l is not None and l is not stop:
        r.append(l[1])
        l = l[0]
    r.reverse()
    return r


class Ev:
    """opaque call event"""
    kind = "call"

    def __init__(self, name, args, ret, cid, span, pre=(), fn=None, recv=None, raw=None):
        self.name, self.args, self.ret, self.cid, self.span, self.fn = name, args, ret, cid, span, fn
        self.pre, self.recv, self.raw = pre, recv, raw
        self.ty = None        # type of the result of a call without summary
        self.fa = ()          # its type arguments

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(map(show, self.args)))


class LoopPath:
    def __init__(self, kind, lits, events, upd, state, target):
        self.kind, self.lits, self.events, self.upd, self.state, self.target = kind, lits, events, upd, state, target
        self.facts = state.facts


class Loop:
    kind = "loop"

    def __init__(self, lid, fn, span):
        self.lid, self.fn, self.span = lid, fn, span
        self.entry = {}   # phi term -> value before the loop
        self.induct = {}  # (root, path) -> (init, step)
        self.paths = []
        self.where = {}   # phi term -> (root, path)

    def __repr__(self):
        return "loop%s[%d paths]" % (_sid(self.lid), len(self.paths))


class LoopEv:
    kind = "loop"

    def __init__(self, loop, exit_):
        self.loop, self.exit = loop, exit_

    def __repr__(self):
        return repr(self.loop) + (" exit %s" % (self.exit.target,))


class SpawnEv:
    kind = "spawn"

    def __init__(self, how, paths, span, state, cid):
        self.how, self.paths, self.span, self.state, self.cid = how, paths, span, state, cid

    def __repr__(self):
        return "spawn[%d paths]" % len(self.paths)


class LockEv:
    def __init__(self, kind, mid, val, span):
        self.kind, self.mid, self.val, self.span = kind, mid, val, span

    def __repr__(self):
        return "%s %s %s" % (self.kind, show(self.mid), show(self.val))


class Out:
    """a complete path of an analysed function"""

    def __init__(self, kind, st, base_lits, base_trace):
        self.kind, self.state = kind, st
        self.ret = st.result
        self.lits = unlist(st.lits, base_lits)
        self.events = unlist(st.trace, base_trace)
        self.facts = st.facts


def _sid(l):
    from term import _short
    return _short(l)


class Program:
    def __init__(self, *dumps):
        self.bodies = {}
        self.bypath = {}
        self.adts = {}
        self.items = []
        for d in dumps:
            for b in d["bodies"]:
                if b["key"] not in self.bodies or b["krate"] == d["crate"]:
                    self.bodies[b["key"]] = b
                self.bypath.setdefault(b["path"], []).append(b)
            for i in d["items"]:
                self.items.append(i)
                if i["k"] == "adt":
                    self.adts[i["p"]] = i
        self._cfg = {}

    def cfg(self, body):
        r = self._cfg.get(body["key"])
        if r is None:
            r = self._cfg[body["key"]] = Cfg(body)
        return r


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["ts"]] + [t["e"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []


class Cfg:
    def __init__(self, body):
        self.body = body
        n = len(body["blocks"])
        self.succ = [succs(b["t"]) for b in body["blocks"]]
        order, seen, st = [], set(), [(0, iter(self.succ[0]))]
        seen.add(0)
        onpath = {0}
        back = []
        while st:
            b, it = st[-1]
            for s in it:
                if s in onpath:
                    back.append((b, s))
                if s not in seen:
                    seen.add(s)
                    onpath.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                st.pop()
                onpath.discard(b)
                order.append(b)
        self.reach = seen
        self.pred = [[] for _ in range(n)]
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.loops = {}
        for latch, h in back:
            blocks = {h}
            st = [latch]
            while st:
                x = st.pop()
                if x not in blocks:
                    blocks.add(x)
                    st.extend(self.pred[x])
            self.loops.setdefault(h, set()).update(blocks)
        self.order = order
        self.live = self._liveness()
        self._pdom = None

    def _liveness(self):
        body = self.body
        blocks = body["blocks"]
        n = len(blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        self.borrowed = set()

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if e["k"] == "index" and e["l"] not in d:
                    u.add(e["l"])

        def opu(o, u, d):
            if o["k"] in ("copy", "move"):
                place_use(o["p"], u, d)

        for i in self.reach:
            u, d = use[i], dfn[i]
            for s in blocks[i]["s"]:
                if s["k"] == "assign":
                    r = s["r"]
                    for f in ("o", "a", "b"):
                        if isinstance(r.get(f), dict):
                            opu(r[f], u, d)
                    for f in r.get("f", []) if isinstance(r.get("f"), list) else []:
                        opu(f, u, d)
                    if "p" in r:
                        place_use(r["p"], u, d)
                        if r["k"] in ("ref", "rawptr"):
                            self.borrowed.add(r["p"][0])
                    if len(s["p"]) == 1:
                        d.add(s["p"][0])
                    else:
                        place_use(s["p"], u, d)
                elif s["k"] == "dead":
                    d.add(s["l"])
                elif s["k"] == "setdiscr":
                    place_use(s["p"], u, d)
            t = blocks[i]["t"]
            if t["k"] == "call":
                for a in t["a"]:
                    opu(a, u, d)
                if "fo" in t:
                    opu(t["fo"], u, d)
                if len(t["p"]) == 1:
                    d.add(t["p"][0])
                else:
                    place_use(t["p"], u, d)
            elif t["k"] in ("switch", "assert"):
                opu(t["o"], u, d)
            elif t["k"] == "drop":
                place_use(t["p"], u, d)
            elif t["k"] == "return":
                u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in self.order:
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                l = use[i] | (o - dfn[i])
                if l != live[i]:
                    live[i] = l
                    ch = True
        return live

    def pdom(self):
        """immediate postdominators by set intersection (bodies are small); exits are return blocks"""
        if self._pdom is None:
            nodes = self.reach
            exits = {b for b in nodes if self.body["blocks"][b]["t"]["k"] == "return"}
            full = set(nodes)
            pd = {b: ({b} if b in exits else full) for b in nodes}
            ch = True
            while ch:
                ch = False
                for b in self.order:
                    if b in exits:
                        continue
                    ss = [pd[s] for s in self.succ[b] if s in nodes]
                    if not ss:
                        continue
                    n = set.intersection(*ss) | {b}
                    if n != pd[b]:
                        pd[b] = n
                        ch = True
            self._pdom = pd
        return self._pdom


TRACING = re.compile(r"^tracing(_core|_attributes)?::")


class Interp:
    def __init__(self, prog, models=None, opaque=(), summaries=(), max_states=60000):
        self.prog, self.models = prog, models
        self.opaque = [re.compile(p) for p in opaque]
        self.summaries = [(re.compile(p), h) for p, h in summaries]
        self.max_states = max_states
        self.nstates = 0
        self.visited = set()      # (body key, bb) analysed
        self.sites = 0
        self.mutexes = {}         # initial contents
        self.unknown = {}         # opaque calls that have no summary: name -> span
        self.underflow = {}       # span key -> (a, b, facts ...)
        self.asserts = []
        import stdmodel
        self.std = stdmodel

    # ------------------------------------------------------------ entry points
    def body(self, key):
        b = self.prog.bodies.get(key)
        if b is None and self.models:
            b = self.models.bodies.get(key)
        return b

    def is_opaque(self, path):
        return any(p.search(path) for p in self.opaque)

    def model(self, path):
        l = self.models.bypath.get(path) if self.models else None
        return l[0] if l else None

    def model_impl(self, adt, trait, meth):
        """body of <adt as trait>::meth in the models"""
        pre = "<" + adt
        for k, b in self.models.bodies.items():
            if k.startswith(pre) and k.endswith("as %s>::%s" % (trait, meth)) and k[len(pre)] in "< ":
                return b
        return None

    def impl_body(self, adt, trait, meth):
        """unique local implementation of a trait method for a type"""
        r = []
        for k, b in self.prog.bodies.items():
            if k.endswith(">::" + meth) and k.startswith("<" + adt) and k[len(adt) + 1] in "< " and re.search(r" as [\w:]*\b%s(<.*>)?>::%s$" % (trait, meth), k):
                r.append(b)
        conc = [b for b in r if not b["generic"]]
        if len(conc) == 1:
            return conc[0]
        return r[0] if len(r) == 1 else None

    def sub_run(self, c, f, args, st=None, raw=False):
        """effects of a closure on a copy of the state; the states at its normal returns"""
        s = (st or c.st).copy()
        v = c.get(f, s)
        fid = s.frames[-1].fid
        bb = s.frames[-1].bb
        s.frames = []
        if v.op == "fn":
            b = self.body(v.a[0])
            if b is None:
                return None
        elif v.op == "agg" and v.a[0].startswith("closure:"):
            b = self.body(v.a[1])
            if b is None:
                return None
            env = v
            if b["locals"][1]["ty"].startswith("&mut"):
                if f.op == "ref":
                    env = mk("ref", True, *c.place_of(f, s))
                else:
                    root = ("H", c.cid, "env")
                    s.store[root] = v
                    env = mk("ref", True, root, ())
            args = [env] + list(args)
        else:
            return None
        s.result = None
        nf = _intern((fid, (bb, b["key"], "sub")))
        for i, a in enumerate(args):
            s.store[("L", nf, i + 1)] = a
        s.frames.append(Frame(nf, b, 0, None, None))
        outs = []
        outs = self.run(self.enter(s, None, outs), None) + outs
        if raw:
            return outs
        return [x for k, x, _ in outs if k == "ret"]

    def enter(self, st, stop, outs):
        """a pushed frame starts with block 0, which may be a loop header"""
        f = st.frames[-1]
        cfg = self.prog_cfg(f.body)
        if 0 in cfg.loops:
            return self.loop(st, 0, cfg, stop, outs)
        return [st]

    def state(self):
        s = St()
        s.store, s.frames, s.facts, s.lits, s.trace, s.result, s.unk = {}, [], Facts(), None, None, None, False
        return s

    def sym_args(self, st, body, names=None):
        """symbolic arguments: by-reference parameters point to their own root objects"""
        args = []
        for i in range(1, body["argc"] + 1):
            l = body["locals"][i]
            n = (names[i - 1] if names and i <= len(names) else None) or "a%d" % i
            args.append(self.sym_value(st, l["ty"], n))
        return args

    def sym_value(self, st, ty, n):
        m = re.match(r"&('\w+ )?(mut )?(.*)$", ty, re.S)
        if m:
            v = self.sym_value(st, m.group(3), n)
            if not m.group(2):
                return v
            root = ("P", n)
            st.store[root] = v
            return mk("ref", True, root, ())
        t = mk("sym", n)
        if ty in ("usize", "u8", "u16", "u32", "u64", "u128"):
            mark_unsigned(t)
        return t

    def run_fn(self, body, args=None, st=None, names=None):
        st = st or self.state()
        if args is None:
            args = self.sym_args(st, body, names)
        bl, bt = st.lits, st.trace
        self.push(st, body, args, None, None, ("top", body["key"]))
        outs = []
        outs = self.run(self.enter(st, None, outs), None) + outs
        return [Out(k, s, bl, bt) for k, s, _ in outs]

    # ------------------------------------------------------------ frames
    def push(self, st, body, args, dest, target, site, cont=None):
        parent = st.frames[-1].fid if st.frames else ()
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        fid = (parent, site)
        fid = _intern(fid)
        for i, a in enumerate(args):
            st.store[("L", fid, i + 1)] = a
        st.frames.append(Frame(fid, body, 0, dest, target, cont))

    def pop(self, st):
        f = st.frames.pop()
        return f

    def clean(self, st, fid):
        for k in [k for k in st.store if k[0] == "L" and k[1] == fid]:
            del st.store[k]

    # ------------------------------------------------------------ memory
    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            if root[0] == "D":
                v = root[1]
            elif root[0] == "L":
                v = mk("uninit", root)
            else:
                v = mk("sym", str(root))
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            if v.op == "ref" and e[1] in ("0", "pointer"):
                return v
            return fld(v, e[1])
        if k == "i":
            return sel(v, e[1], st.facts)
        if k == "key":
            return hget(v, e[1], st.facts)
        if k == "sub":
            return slice_(v, e[1], e[2])
        raise Unsupported("projection %s" % (e,))

    def write(self, st, root, path, v):
        if not path:
            st.store[root] = v
            return
        old = self.read(st, root, ())
        st.store[root] = self.upd(st, old, path, v)

    def upd(self, st, old, path, v):
        if not path:
            return v
        e, rest = path[0], path[1:]
        if e[0] == "f":
            if old.op == "uninit":
                pass
            return withf(old, e[1], self.upd(st, fld(old, e[1]), rest, v))
        if e[0] == "i":
            return upd(old, e[1], self.upd(st, sel(old, e[1], st.facts), rest, v))
        if e[0] == "key":
            return hput(old, e[1], self.upd(st, hget(old, e[1], st.facts), rest, v))
        if e[0] == "sub":
            if rest:
                # fold the offset into the next index
                n = rest[0]
                if n[0] == "i":
                    return self.upd(st, old, (("i", add(e[1], n[1])),) + rest[1:], v)
                if n[0] == "sub":
                    return self.upd(st, old, (("sub", add(e[1], n[1]), add(e[1], n[2])),) + rest[1:], v)
            return mk("updslice", old, e[1], e[2], v)
        raise Unsupported("write %s" % (e,))

    def norm_path(self, path):
        out = []
        for e in path:
            if out and out[-1][0] == "sub":
                lo = out[-1][1]
                if e[0] == "i":
                    out[-1] = ("i", add(lo, e[1]))
                    continue
                if e[0] == "sub":
                    out[-1] = ("sub", add(lo, e[1]), add(lo, e[2]))
                    continue
            out.append(e)
        return tuple(out)

    def deref(self, st, v):
        """place a pointer value points to"""
        if v.op == "ref":
            return v.a[1], v.a[2]
        if v.op == "agg" and v.a[0] == "prim::Guard":
            return self.deref(st, v.a[3][0])
        return ("D", v), ()

    def place(self, st, p):
        f = st.frames[-1]
        root, path = ("L", f.fid, p[0]), ()
        down = None
        for e in p[1:]:
            k = e["k"]
            if k == "deref":
                root, path = self.deref(st, self.read(st, root, path))
            elif k == "field":
                if re.search(r"(^|::)(MaybeUninit|ManuallyDrop|Unique|NonNull|Box|UnsafeCell|MaybeDangling)$", e["t"]):
                    pass
                elif down is not None:
                    path = path + (("f", down + "." + e["n"]),)
                else:
                    path = path + (("f", e["n"]),)
            elif k == "index":
                path = self.norm_path(path + (("i", self.read(st, ("L", f.fid, e["l"]), ())),))
            elif k == "cindex":
                v = num(e["o"])
                if e["e"]:
                    v = sub(length(self.read(st, root, path)), num(e["o"]))
                path = self.norm_path(path + (("i", v),))
            elif k == "subslice":
                hi = num(e["o"])
                if e["e"]:
                    hi = sub(length(self.read(st, root, path)), num(e["o"]))
                path = self.norm_path(path + (("sub", num(e["f"]), hi),))
            elif k == "downcast":
                down = e["n"]
                continue
            else:
                raise Unsupported("place %s" % k)
            down = None
        return root, path

    def operand(self, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read(st, *self.place(st, o["p"]))
        return self.const(st, o)

    def const(self, st, o):
        ty = o["ty"]
        if "ctor" in o:
            return mk("ctor", o["ctor"][0], o["ctor"][1])
        if "fn" in o:
            return mk("fn", o.get("fk") or o["fn"], o["fn"])
        if "closure" in o:
            return agg("closure:" + o["closure"], o["ck"], (), ())
        if "int" in o:
            if ty == "bool":
                return boolc(bool(o["int"]))
            return num(o["int"])
        if "float" in o:
            return mk("float", float(o["float"]))
        if "str" in o:
            return mk("str", o["str"])
        if "adt" in o and o["adt"] == "std::time::Duration" and len(o["fields"]) == 2:
            f = [self.const(st, x) for x in o["fields"]]
            f = [x.a[3][0] if x.op == "agg" and len(x.a[3]) == 1 else x for x in f]
            if isnum(f[0]) and isnum(f[1]):
                return num(f[0].a[0] * 10 ** 9 + f[1].a[0])
        if "adt" in o:
            return agg(o["adt"], o["variant"], o["names"], [self.const(st, f) for f in o["fields"]])
        if ty == "()":
            return UNIT
        if "ref" in o:
            return self.const(st, o["ref"])
        return mk("const", o.get("path", "") + ("#%d" % o["promoted"] if "promoted" in o else ""), o.get("dbg", ty))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, span):
        k = r["k"]
        if k == "use":
            return self.operand(st, r["o"])
        if k in ("ref", "rawptr"):
            root, path = self.place(st, r["p"])
            return self.mkref(st, root, path, r["mut"])
        if k == "bin":
            return self.binop(st, r["op"], self.operand(st, r["a"]), self.operand(st, r["b"]), r["ty"], span)
        if k == "un":
            v = self.operand(st, r["o"])
            if r["op"] == "Not":
                w = re.match(r"^([iu])(8|16|32|64|128|size)$", self.opty(st, r["o"]) or "")
                if w:
                    if w.group(1) == "i":
                        return sub(num(-1), v)
                    return sub(num(2 ** (64 if w.group(2) == "size" else int(w.group(2))) - 1), v)
                return neg(v)
            if r["op"] == "Neg":
                if v.op == "float":
                    return mk("float", -v.a[0])
                ty = self.opty(st, r["o"])
                if ty in ("f64", "f32"):
                    return v.a[0] if v.op == "fneg" else mk("fneg", v)
                return scale(v, -1)
            if r["op"] == "PtrMetadata":
                if v.op == "ref":
                    return length(self.read(st, v.a[1], v.a[2]))
                return length(v)
            return mk("un", r["op"], v)
        if k == "discr":
            v = self.read(st, *self.place(st, r["p"]))
            if v.op == "agg" and v.a[1] is not None:
                for val, n in r["vs"]:
                    if n == v.a[1]:
                        return num(val)
            vs = tuple((a, b) for a, b in r["vs"])
            VARIANTS[v] = [n for _, n in vs]
            if st.facts.var.get(v, ("",))[0] == "is":
                for val, n in vs:
                    if n == st.facts.var[v][1]:
                        return num(val)
            return mk("discr", v, vs)
        if k == "cast":
            v = self.operand(st, r["o"])
            return self.cast(st, r, v)
        if k == "agg":
            fs = [self.operand(st, f) for f in r["f"]]
            a = r["a"]
            if a == "array":
                return mk("arr", *fs) if fs else VEC0
            if a == "tuple":
                return tup(*fs) if fs else UNIT
            if a == "adt":
                return agg(r["adt"], r["variant"], r["names"], fs)
            if a == "closure":
                return agg("closure:" + r["d"], r["key"], [str(i) for i in range(len(fs))], fs)
            if a == "other" and fs:  # raw pointer from parts
                return fs[0]
        if k == "repeat":
            n = r["n"]
            v = self.operand(st, r["o"])
            return mk("fill", v, num(n)) if n is not None else mk("unk", "repeat")
        if k == "tls":
            return mk("tls", r["d"])
        return mk("unk", "rvalue", str(r)[:80])

    def opty(self, st, o):
        if o["k"] == "const":
            return o["ty"]
        p = o["p"]
        if len(p) == 1:
            return st.frames[-1].body["locals"][p[0]]["ty"]
        return "f64" if False else ""

    def mkref(self, st, root, path, mut):
        # a reference to the target of an opaque pointer is the pointer itself
        if root[0] == "D" and not path:
            return root[1]
        # a shared reference is a snapshot of what it points to: nothing can change it while it is in use
        if not mut:
            return self.read(st, root, path)
        return mk("ref", True, root, path)

    INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "isize": 8, "u128": 16, "i128": 16}

    def cast(self, st, r, v):
        c, ty, fr = r["c"], r["ty"], r["from"]
        if c in ("IntToInt",):
            if fr == "bool":
                return b2i(v)
            a, b = self.INTS.get(fr, 9), self.INTS.get(ty, 0)
            if isnum(v):
                n = v.a[0]
                bits = 8 * b
                m = n & ((1 << bits) - 1)
                if ty.startswith("i") and m >= 1 << (bits - 1):
                    m -= 1 << bits
                return num(m)
            fu, tu = fr.startswith("u"), ty.startswith("u")
            if fu:
                mark_unsigned(v)
                WIDTH[v] = min(WIDTH.get(v, 999), 8 * a)
                if 8 * b >= WIDTH[v] + (0 if tu else 1):
                    return v
            elif v in WIDTH and 8 * b >= WIDTH[v] + (0 if tu else 1):
                return v
            if (fu and (b > a or (b == a and tu))) or (not fu and not tu and b >= a):
                return v
            if fu and not tu and b == a:
                # usize as i64: no value above i64::MAX occurs for lengths / counts
                return v
            return mk("cast", ty, v)
        if c == "IntToFloat":
            if isnum(v):
                return mk("float", float(v.a[0]))
            return mk("i2f", v)
        if c == "FloatToInt":
            return mk("f2i", ty, v)
        if c == "FloatToFloat":
            return mk("f2f", ty, v)
        return v

    def binop(self, st, op, a, b, ty, span):
        if ty in ("f64", "f32"):
            if op in ("Add", "Mul"):
                a, b = sorted((a, b))
            if op == "Lt":
                return mk("flt", a, b)
            if op == "Le":
                return mk("fle", a, b)
            if op == "Gt":
                return mk("flt", b, a)
            if op == "Ge":
                return mk("fle", b, a)
            if op in ("Eq", "Ne"):
                t = mk("feq", *sorted((a, b)))
                return t if op == "Eq" else neg(t)
            return mk("f" + op.lower(), a, b)
        if op.endswith("WithOverflow"):
            op0 = op[:-len("WithOverflow")]
            return tup(self.binop(st, op0, a, b, ty, span), FALSE)
        if op.endswith("Unchecked"):
            op = op[:-len("Unchecked")]
        uns = ty.startswith("u") and ty in self.INTS
        if uns:
            mark_unsigned(a)
            mark_unsigned(b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            if uns:
                self.check_sub(st, a, b, span)
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if ty == "bool":
                return mk("bcmp", op, a, b)
            return {"Lt": lambda: lt(a, b), "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return neg(eq(a, b))
        if op == "Cmp":
            return mk("op", "cmp", a, b)
        if op == "BitAnd" and ty == "bool":
            return conj(a, b)
        if op == "BitOr" and ty == "bool":
            return disj(a, b)
        if op == "BitXor" and ty == "bool":
            return neg(eq(a, b))
        if op in ("Div", "Rem") and isnum(a) and isnum(b) and b.a[0] != 0 and a.a[0] >= 0 and b.a[0] > 0:
            return num(a.a[0] // b.a[0] if op == "Div" else a.a[0] % b.a[0])
        if isnum(a) and isnum(b) and a.a[0] >= 0 and b.a[0] >= 0:
            x, y = a.a[0], b.a[0]
            bits = 8 * self.INTS.get(ty, 0)
            if op in ("Shl", "ShlUnchecked") and y < bits and (x << y) < 1 << (bits - (not ty.startswith("u"))):
                return num(x << y)
            if op in ("Shr", "ShrUnchecked") and y < bits:
                return num(x >> y)
            if op in ("BitAnd", "BitOr", "BitXor"):
                return num({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        t = mk("bin", op, a, b)
        if uns:
            mark_unsigned(t)
        return t

    def check_sub(self, st, a, b, span):
        if st.facts.decide(le(b, a)) is not True:
            self.underflow.setdefault((st.frames[-1].body["key"], span[1] if span else 0), (a, b, st.facts, span))

    # ------------------------------------------------------------ driver loop
    def run(self, states, stop):
        """stop: (depth, header, blocks) of the loop under analysis or None. Returns [(kind, state, target)]"""
        outs = []
        work = list(states)
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise TooBig("more than %d abstract states" % self.max_states)
            for x in self.step(st, stop, outs):
                work.append(x)
        return outs

    def goto(self, st, bb, stop, outs):
        """move the top frame to bb; returns the states to continue with"""
        depth = len(st.frames)
        f = st.frames[-1]
        if stop and depth == stop[0]:
            if bb == stop[1]:
                outs.append(("back", st, bb))
                return []
            if bb not in stop[2]:
                st.frames[-1] = f.at(bb)
                outs.append(("exit", st, bb))
                return []
        st.frames[-1] = f.at(bb)
        cfg = self.prog_cfg(f.body)
        if bb in cfg.loops:
            return self.loop(st, bb, cfg, stop, outs)
        return [st]

    def prog_cfg(self, body):
        return (self.prog if body["key"] in self.prog.bodies else self.models).cfg(body)

    def step(self, st, stop, outs):
        f = st.frames[-1]
        blk = f.body["blocks"][f.bb]
        self.visited.add((f.body["key"], f.bb))
        for i, s in enumerate(blk["s"]):
            k = s["k"]
            if k == "assign":
                v = self.rvalue(st, s["r"], s["s"])
                root, path = self.place(st, s["p"])
                self.write(st, root, path, v)
            elif k == "dead":
                st.store.pop(("L", f.fid, s["l"]), None)
            elif k == "setdiscr":
                root, path = self.place(st, s["p"])
                self.write(st, root, path, agg("?", s["n"], (), ()))
        t = blk["t"]
        k = t["k"]
        # logging is not part of the computation: continue where the logging macro ends
        mac = t.get("s", [None, None, None])[2]
        if mac and TRACING.match(mac) and k in ("switch", "call"):
            j = self.after_tracing(f.body, f.bb)
            if j is not None:
                return self.goto(st, j, stop, outs)
        if k == "goto":
            return self.goto(st, t["t"], stop, outs)
        if k == "assert":
            c = self.operand(st, t["o"])
            if not t["x"]:
                c = neg(c)
            d = st.facts.decide(c)
            if d is None and t["m"] == "bounds":
                st.assume(c)
            return self.goto(st, t["t"], stop, outs)
        if k == "switch":
            return self.switch(st, t, stop, outs)
        if k == "return":
            ret = st.store.get(("L", f.fid, 0), UNIT)
            self.pop(st)
            self.clean(st, f.fid)
            return self.ret_to(st, f, ret, stop, outs)
        if k == "drop":
            return self.drop(st, t, stop, outs)
        if k == "call":
            self.sites += 1
            return self.call(st, t, stop, outs)
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator %s" % k)

    def ret_to(self, st, f, ret, stop, outs):
        if f.cont is not None:
            return self.resume_cont(f.cont(st, ret), stop, outs)
        if not st.frames:
            st.result = ret
            outs.append(("ret", st, None))
            return []
        if f.dest is not None:
            self.write(st, f.dest[0], f.dest[1], ret)
        if f.target is None:
            return []
        return self.goto(st, f.target, stop, outs)

    def resume_cont(self, r, stop, outs):
        """continuations return a list of (state, action): action is ('ret', frame-like, value) etc."""
        res = []
        for st, act in r:
            if act is None:
                res.append(st)
            elif act[0] == "goto":
                res.extend(self.goto(st, act[1], stop, outs))
            elif act[0] == "done":
                st.result = act[1]
                outs.append(("ret", st, None))
            elif act[0] == "cont":
                res.extend(self.resume_cont(act[1](st, act[2]), stop, outs))
            elif act[0] == "panic":
                outs.append(("panic", st, None))
            elif act[0] == "val":
                c = act[1]
                self.write(st, c.dest[0], c.dest[1], act[2])
                if c.target is not None:
                    res.extend(self.goto(st, c.target, stop, outs))
        return res

    def switch(self, st, t, stop, outs):
        v = self.operand(st, t["o"])
        res = []
        isb = t["ty"] == "bool"
        alts = []
        if isb:
            tgt = {val: b for val, b in t["ts"]}
            alts = [(v, tgt.get(1, t["e"])), (neg(v), tgt.get(0, t["e"]))]
        else:
            n = intval(v)
            if n is not None:
                for val, b in t["ts"]:
                    if val == n:
                        return self.goto(st, b, stop, outs)
                return self.goto(st, t["e"], stop, outs)
            if v.op == "discr":
                m = dict(v.a[1])
                used = []
                for val, b in t["ts"]:
                    if val in m:
                        alts.append((isv(v.a[0], m[val]), b))
                        used.append(m[val])
                rest = [nm for nm in m.values() if nm not in used]
                if rest:
                    if len(rest) == 1:
                        alts.append((isv(v.a[0], rest[0]), t["e"]))
                    else:
                        c = TRUE
                        for u in used:
                            c = conj(c, neg(isv(v.a[0], u)))
                        alts.append((c, t["e"]))
            else:
                c = TRUE
                for val, b in t["ts"]:
                    alts.append((eq(v, num(val)), b))
                    c = conj(c, neg(eq(v, num(val))))
                alts.append((c, t["e"]))
        alts = [(c, b) for c, b in alts if c is not FALSE and st.facts.decide(c) is not False]
        for i, (c, b) in enumerate(alts):
            if st_unreachable(st.frames[-1].body, b):
                continue
            s = st.copy() if i + 1 < len(alts) else st
            if s.assume(c):
                res.extend(self.goto(s, b, stop, outs))
        return res

    def after_tracing(self, body, bb):
        """the block where control continues after a logging macro"""
        cfg = self.prog_cfg(body)
        memo = body.setdefault("_tr", {})
        if bb in memo:
            return memo[bb]
        pd = cfg.pdom()
        # candidates: postdominators of bb, nearest first, that are outside of the macro
        cand = [b for b in pd[bb] if b != bb]
        cand.sort(key=lambda b: -len(pd[b]))
        r = None
        for b in cand:
            blk = body["blocks"][b]
            sp = blk["t"].get("s", [None, None, None])
            mac = sp[2]
            if mac and TRACING.match(mac):
                continue
            # all blocks of the macro lie between bb and b: b must not be entered only from user code inside args
            if any(s["k"] == "assign" and s["s"][2] and TRACING.match(s["s"][2]) for s in blk["s"]) and blk["t"]["k"] in ("switch", "call") and mac:
                continue
            if self._inside_macro(body, cfg, b):
                continue
            r = b
            break
        memo[bb] = r
        return r

    def _inside_macro(self, body, cfg, b):
        """user code evaluated as an argument of a logging macro: all ways on lead into the macro again
        at the same source position"""
        line = body["blocks"][b]["t"].get("s", [None, None])[1]
        seen, stt = set(), [b]
        x = b
        # follow straight-line code
        for _ in range(30):
            ss = cfg.succ[x]
            if len(ss) != 1:
                break
            x = ss[0]
            sp = body["blocks"][x]["t"].get("s", [None, None, None])
            sts = [s["s"] for s in body["blocks"][x]["s"] if s["k"] == "assign"]
            for q in sts + [sp]:
                if q and q[2] and TRACING.match(q[2]):
                    # same macro invocation if it starts at or before the argument's line
                    return q[1] is not None and line is not None and q[1] <= line
        return False

    # ------------------------------------------------------------ loops
    def loop(self, st0, h, cfg, stop, outs):
        f = st0.frames[-1]
        depth = len(st0.frames)
        lid = _intern(("loop", f.fid, h))
        live = cfg.live[h]
        # dead temporaries of this frame do not matter
        for k in [k for k in st0.store if k[0] == "L" and k[1] == f.fid and k[2] not in live and k[2] not in cfg.borrowed and k[2] != 0]:
            del st0.store[k]
        blocks = cfg.loops[h]
        span = f.body["blocks"][h]["t"].get("s")
        phis = {}     # (root, path) -> kind 'phi' | ('ind', c)
        L = None
        for it in range(14):
            L = Loop(lid, f.body["path"], span)
            s = st0.copy()
            for (root, path), kind in phis.items():
                init = self.read(st0, root, path)
                if kind == "phi":
                    v = mk("phi", lid, (root, path), _pname(root, path, f))
                    self._typed(v, init)
                    L.entry[v] = init
                    L.where[v] = (root, path)
                else:
                    v = add(init, scale(mk("k", lid), kind[1]))
                    L.induct[(root, path)] = (init, kind[1])
                self.write(s, root, path, v)
            bl, bt = s.lits, s.trace
            start = s.copy()
            res = self.run([s], (depth, h, blocks))
            changed = {}
            for kind, b, _ in res:
                if kind != "back":
                    continue
                for root, v0 in start.store.items():
                    if root[0] == "L" and root[1] == f.fid and root[2] not in live and root[2] not in cfg.borrowed:
                        continue
                    v1 = b.store.get(root)
                    if v1 is None or v1 is v0:
                        continue
                    self.diff(v0, v1, root, (), changed, b)
                # objects that came into being in the body and stay alive (pointees of opaque pointers)
                for root, v1 in b.store.items():
                    if root not in start.store and root[0] == "D":
                        self.diff(root[1], v1, root, (), changed, b)
            new = {}
            allp = set(phis) | set(changed)
            # keep only outermost places
            for p in sorted(allp, key=lambda p: len(p[1])):
                if any(q[0] == p[0] and p[1][:len(q[1])] == q[1] for q in new):
                    continue
                new[p] = phis.get(p)
            # classification
            for p in list(new):
                root, path = p
                cs = set()
                for kind, b, _ in res:
                    if kind == "back":
                        d = sub(self.read(b, root, path), self.read(start, root, path))
                        cs.add(intval(d))
                init = self.read(st0, root, path)
                if new[p] == "phi":
                    continue
                if len(cs) == 1 and None not in cs and (init.op in ("aff",) or self._intlike(init)) and 0 not in cs:
                    c = cs.pop()
                    if new[p] is None or new[p] == ("ind", c):
                        new[p] = ("ind", c)
                        continue
                new[p] = "phi"
            if new == phis:
                break
            phis = new
        else:
            raise Unsupported("loop does not stabilise")
        for kind, b, tgt in res:
            lp = LoopPath(kind, unlist(b.lits, bl), unlist(b.trace, bt), {}, b, tgt)
            if kind in ("back", "exit"):
                for v, (root, path) in L.where.items():
                    lp.upd[v] = self.read(b, root, path)
            L.paths.append(lp)
        self.pointwise(L)
        conts = []
        exits = [(lp, b) for lp, (kind, b, tgt) in zip(L.paths, res) if kind == "exit"]
        rest = [x for x in res if x[0] in ("ret", "panic")]
        built = self.builders(L)
        # the exit state of the loop counter: it left the loop at the first k that fails the guard
        for lp, b in exits:
            ns = b.copy()
            self.exit_facts(L, lp, ns)
            if built:
                sb = {}
                for v, bv in built.items():
                    cnt = bv[1]
                    if ns.facts.decide(eq(mk("k", lid), cnt)) is True:
                        sb[v] = bv[0]
                if sb:
                    for r in list(ns.store):
                        ns.store[r] = subst(ns.store[r], sb)
            ns.trace = (bt, LoopEv(L, lp))
            conts.append((ns, lp.target))
        states = []
        for kind, b, tgt in rest:
            outs.append((kind, b, tgt))
        for ns, tgt in conts:
            # the exit target belongs to the same frame
            states.extend(self.goto(ns, tgt, stop, outs))
        return states

    def _typed(self, v, init):
        if init.op == "aff" and (init.a[1] or init.a[0] >= 0) or nonneg(init) or init.op == "len":
            # counters of unsigned type; signed counters are marked by type below
            if self._unsigned_init(init):
                mark_unsigned(v)

    def _unsigned_init(self, init):
        return nonneg(init)

    def _intlike(self, t):
        return t.op in ("aff", "len", "sym", "fld", "phi", "k", "sel", "ret", "bin", "hlen", "mul")

    def diff(self, a, b, root, path, out, st):
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[3]) == len(b.a[3]) and a.a[0] != "?":
            v = "" if a.a[1] is None or a.a[0].startswith("closure:") else a.a[1] + "."
            for n, x, y in zip(a.a[2], a.a[3], b.a[3]):
                self.diff(x, y, root, path + (("f", v + n),), out, st)
            return
        # field updates of an opaque structure: only the changed fields
        fields = {}
        y = b
        while y.op == "with" and y is not a:
            fields.setdefault(y.a[1], y.a[2])
            y = y.a[0]
        if y is a and fields:
            for n, v in fields.items():
                self.diff(fld(a, n), v, root, path + (("f", n),), out, st)
            return
        if a.op == "with":
            # both updates of the same base
            fa, x = {}, a
            while x.op == "with":
                fa.setdefault(x.a[1], x.a[2])
                x = x.a[0]
            fb, y = {}, b
            while y.op == "with":
                fb.setdefault(y.a[1], y.a[2])
                y = y.a[0]
            if x is y:
                for n in set(fa) | set(fb):
                    self.diff(fa.get(n, fld(x, n)), fb.get(n, fld(x, n)), root, path + (("f", n),), out, st)
                return
        out[(root, path)] = True

    def exit_facts(self, L, lp, ns):
        """k <= n holds at an exit by k >= n when every back edge requires k < n (and 0 <= n)"""
        k = mk("k", L.lid)
        ns.assume(le(num(0), k))
        backs = [p for p in L.paths if p.kind == "back"]
        if not backs:
            return
        for c in lp.lits:
            if c.op != "lt0" and not (c.op == "not" and c.a[0].op == "eq0"):
                if c.op != "eq0":
                    continue
            if c.op != "lt0":
                continue
            # c: d < 0 with coefficient -1 of k:  n - k - 1 < 0  <=>  k >= n
            cc, m = aff(c.a[0])
            if m.get(k) != -1:
                continue
            n = add(add(c.a[0], k), num(1))  # n <= k
            if contains(n, lambda t: t.op in ("k", "phi") and t.a[0] == L.lid):
                continue
            ok = all(p.facts.decide(lt(k, n)) is True for p in backs)
            if ok and ns.facts.decide(le(num(0), n)) is True:
                ns.assume(eq(k, n))
            elif ok:
                # 0 iterations are possible when n < 0; lengths of ranges
                if n.op == "aff":
                    f2 = ns.facts.assume(le(num(0), n))
                    if f2 is not None and ns.facts.decide(lt(n, num(0))) is None:
                        # k = max(n, 0); only record the common case when n is a difference of a checked range
                        ns.assume(disj(eq(k, n), conj(eq(k, num(0)), lt(n, num(0)))))
        # exits by equality test k == n (while i != n)
        return

    def pointwise(self, L):
        """reads of an array cell that only this iteration writes see the value from before the loop"""
        k = mk("k", L.lid)
        backs = [p for p in L.paths if p.kind == "back"]
        m = {}
        L.point = {}
        for phi, init in L.entry.items():
            idx = None
            good = True
            for p in L.paths:
                v = p.upd.get(phi)
                if v is None:
                    continue
                while v.op == "upd":
                    i = v.a[1]
                    if idx is None:
                        idx = i
                    if i is not idx:
                        good = False
                    v = v.a[0]
                if v is not phi:
                    good = False
            if not good or idx is None:
                continue
            c, d = aff(idx)
            if d.get(k) not in (1, -1):
                continue
            if contains(sub(idx, scale(k, d[k])), lambda t: t.op in ("phi", "k") and t.a[0] == L.lid):
                continue
            m[mk("sel", phi, idx)] = sel(init, idx)
            L.point[phi] = idx
        if not m:
            return
        for p in L.paths:
            self.subst_path(p, m)

    def subst_path(self, p, m):
        memo = {}
        p.lits = [subst(c, m, memo) for c in p.lits]
        p.upd = {v: self._substupd(x, m, memo) for v, x in p.upd.items()}
        f = Facts()
        for c in p.lits:
            g = f.assume(c)
            if g is None:
                break
            f = g
        # facts of the enclosing context are kept
        p.facts = _substfacts(p.facts, m, memo) or f
        st = p.state
        st.facts = p.facts
        for r in list(st.store):
            st.store[r] = subst(st.store[r], m, memo)
        for e in p.events:
            if isinstance(e, Ev):
                e.args = tuple(subst(a, m, memo) for a in e.args)
                e.pre = tuple(subst(a, m, memo) for a in e.pre)

    def _substupd(self, x, m, memo):
        return subst(x, m, memo)

    def builders(self, L):
        """vectors that every iteration extends by one element, in a loop with a known number of iterations"""
        k = mk("k", L.lid)
        backs = [p for p in L.paths if p.kind == "back"]
        exits = [p for p in L.paths if p.kind != "back"]
        if len(backs) != 1 or len(exits) != 1 or exits[0].kind != "exit":
            return {}
        b = backs[0]
        # number of iterations n from the exit guard k >= n
        n = None
        for c in exits[0].lits:
            if c.op == "lt0":
                cc, m = aff(c.a[0])
                if m.get(k) == -1:
                    n = add(add(c.a[0], k), num(1))
        if n is None or contains(n, lambda t: t.op in ("k", "phi") and t.a[0] == L.lid):
            return {}
        r = {}
        made = {e.cid for e in b.events if isinstance(e, Ev)}
        for phi, init in L.entry.items():
            v = b.upd.get(phi)
            if exits[0].upd.get(phi) is not phi or v is None or v.op != "push" or v.a[0] is not phi:
                continue
            x = v.a[1]
            if contains(x, phi):
                continue
            if not contains(x, lambda t: t.op in ("k", "phi") and t.a[0] == L.lid):
                if not contains(x, lambda t: t.op in ("ret", "after") and t.a[0] in made):
                    # otherwise: the result of a call, another one in every iteration
                    r[phi] = (concat(init, mk("fill", x, n)), n)
                continue
            if x.op == "sel" and not contains(x.a[0], lambda t: t.op in ("k", "phi") and t.a[0] == L.lid):
                lo = sub(x.a[1], k)
                if not contains(lo, lambda t: t.op in ("k", "phi") and t.a[0] == L.lid):
                    r[phi] = (concat(init, slice_(x.a[0], lo, add(lo, n))), n)
                    continue
            r[phi] = (concat(init, mk("gen", n, subst(x, {k: mk("bv", 0)}))), n) if not contains(x, lambda t: t.op == "phi" and t.a[0] == L.lid) else (phi, n)
        return {p: v for p, v in r.items() if v[0] is not p}

    # ------------------------------------------------------------ drops
    def drop(self, st, t, stop, outs):
        root, path = self.place(st, t["p"])
        v = self.read(st, root, path)
        for g in guards_in(v):
            self.unlock(st, g, t.get("s"))
        if t["ds"] and "Timer" in t["ty"]:
            pass
        if t["ds"]:
            st.ev(Ev("drop:" + t["ty"], (v,), UNIT, None, t.get("s"), fn=st.frames[-1].body["path"]))
        elif v.op in ("ret", "sym", "fld") and "MutexGuard" in t["ty"]:
            st.ev(LockEv("unlock", v, v, t.get("s")))
        return self.goto(st, t["t"], stop, outs)

    def unlock(self, st, g, span):
        mid = g.a[3][1]
        root, path = g.a[3][0].a[1], g.a[3][0].a[2]
        st.ev(LockEv("unlock", mid, self.read(st, root, path), span))

    # ------------------------------------------------------------ calls
    def call(self, st, t, stop, outs):
        return self.std.call(self, st, t, stop, outs)


def guards_in(v, depth=4):
    if v.op == "agg":
        if v.a[0] == "prim::Guard":
            yield v
        elif depth:
            for x in v.a[3]:
                yield from guards_in(x, depth - 1)


def st_unreachable(body, b):
    blk = body["blocks"][b]
    return blk["t"]["k"] == "unreachable" and not blk["s"]


def _substfacts(f, m, memo):
    g = Facts()
    for b, (lo, hi) in f.iv.items():
        nb = subst(b, m, memo)
        if lo is not None:
            g2 = g.assume(le(num(lo), nb))
            if g2 is None:
                return None
            g = g2
        if hi is not None:
            g2 = g.assume(le(nb, num(hi)))
            if g2 is None:
                return None
            g = g2
    for b, ns in f.ne.items():
        for n in ns:
            g2 = g.assume(neg(eq(subst(b, m, memo), num(n))))
            if g2 is None:
                return None
            g = g2
    g = g.copy()
    for v, k in f.var.items():
        g.var[subst(v, m, memo)] = k
    for v, k in f.bl.items():
        g.bl[subst(v, m, memo)] = k
    g.ors = tuple(subst(c, m, memo) for c in f.ors)
    return g


_ids = {}


def _intern(x):
    """stable small ids for call strings"""
    i = _ids.get(x)
    if i is None:
        i = _ids[x] = len(_ids) + 1
    return i


def _pname(root, path, f):
    n = root[1]
    if root[0] == "L":
        n = "_%s" % root[2]
        if root[1] == f.fid and f.body["locals"][root[2]]["n"]:
            n = f.body["locals"][root[2]]["n"]
    return str(n) + "".join("." + str(e[1]) if e[0] == "f" else "[]" for e in path)

"""Value terms (hash-consed), affine integer normal form and path facts."""

UNKNOWN_CIDS = set()  # calls that have no summary at all
_tab = {}
_seq = [0]


class T:
    __slots__ = ("op", "a", "n")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t.n = _seq[0]
        _seq[0] += 1
        _tab[k] = t
    return t


# ---------------------------------------------------------------- integers
def num(n):
    return mk("aff", n, ())


def aff(t):
    """(const, {term: coeff})"""
    if t.op == "aff":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mkaff(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].n))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("aff", c, items)


def add(a, b, s=1):
    c1, d1 = aff(a)
    c2, d2 = aff(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + s * k
    return mkaff(c1 + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = aff(a)
    return mkaff(c * n, {t: k * n for t, k in d.items()})


def isnum(t):
    return t.op == "aff" and not t.a[1]


def intval(t):
    return t.a[0] if isnum(t) else None


def mul(a, b):
    if isnum(a):
        return scale(b, a.a[0])
    if isnum(b):
        return scale(a, b.a[0])
    x, y = sorted((a, b))
    return mk("mul", x, y)


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("agg", "()", None, (), ())


def boolc(b):
    return TRUE if b else FALSE


NONNEG = set()  # terms known to be >= 0 (lengths, counters, values of unsigned type)


def nonneg(t):
    if t.op in ("len", "hlen", "k", "b2i"):
        return True
    return t in NONNEG


WIDTH = {}      # term -> bits of an unsigned type it was seen with


def mark_unsigned(t):
    # the value has an unsigned type: only single terms are recorded
    if t.op != "aff":
        NONNEG.add(t)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return lt0(add(sub(a, b), num(-1)))


def lt0(d):
    if isnum(d):
        return boolc(d.a[0] < 0)
    return mk("lt0", d)


def signnorm(d):
    """canonical sign for an affine difference: (positive leading coefficient, flipped?)"""
    c, m = aff(d)
    lead = min(m, key=lambda t: t.n)
    if m[lead] < 0:
        return scale(d, -1), True
    return d, False


def eq(a, b):
    if a is b:
        return TRUE
    # structural comparison of aggregates
    if a.op == "agg" and b.op == "agg":
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[3]) != len(b.a[3]):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3], b.a[3]):
            r = conj(r, eq(x, y))
        return r
    if a.op == "agg" and b.op != "agg" and a.a[1] is not None:
        a, b = b, a
    if b.op == "agg" and b.a[1] is not None and a.op != "agg":
        r = isv(a, b.a[1])
        for nme, y in zip(b.a[2], b.a[3]):
            r = conj(r, eq(fld(a, b.a[1] + "." + nme), y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == "discr" and isnum(y):
            n = y.a[0]
            for v, nm in x.a[1]:
                if v == n:
                    return isv(x.a[0], nm)
            return FALSE
    if a.op == "discr" and b.op == "discr":
        return mk("eq", *sorted((a.a[0], b.a[0])))
    if a.op in ("str", "bool", "float") and b.op == a.op:
        return boolc(a.a == b.a)
    if a.op == "bool":
        a, b = b, a
    if b.op == "bool":
        return a if b.a[0] else neg(a)
    if a.op == "str" or b.op == "str":
        return mk("eq", *sorted((a, b)))
    d = sub(a, b)
    if isnum(d):
        return boolc(d.a[0] == 0)
    return mk("eq0", signnorm(d)[0])


def neg(c):
    if c.op == "bool":
        return boolc(not c.a[0])
    if c.op == "lt0":
        return lt0(add(scale(c.a[0], -1), num(-1)))
    if c.op == "not":
        return c.a[0]
    if c.op == "and":
        return mk("or", neg(c.a[0]), neg(c.a[1]))
    if c.op == "or":
        return mk("and", neg(c.a[0]), neg(c.a[1]))
    return mk("not", c)


def conj(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return mk("and", a, b)


def disj(a, b):
    return neg(conj(neg(a), neg(b)))


# ---------------------------------------------------------------- structure
def agg(adt, variant, names, fields):
    return mk("agg", adt, variant, tuple(names), tuple(fields))


def tup(*fs):
    return agg("()", None, [str(i) for i in range(len(fs))], fs)


OPTION = "std::option::Option"
RESULT = "std::result::Result"


def some(x):
    return agg(OPTION, "Some", ("0",), (x,))


NONE = agg(OPTION, "None", (), ())


def ok(x):
    return agg(RESULT, "Ok", ("0",), (x,))


def err(x):
    return agg(RESULT, "Err", ("0",), (x,))


def ordering(v):
    return agg("std::cmp::Ordering", v, (), ())


def fld(t, name):
    """field read; `name` may be Variant.field"""
    if t.op == "agg":
        n = name
        if "." in n:
            v, n = n.split(".", 1)
            if t.a[1] is not None and t.a[1] != v:
                return mk("absurd")
        for i, x in enumerate(t.a[2]):
            if x == n:
                return t.a[3][i]
        return mk("fld", t, name)
    if t.op == "with":
        if t.a[1] == name:
            return t.a[2]
        return fld(t.a[0], name)
    if t.op == "hold" and name == "Some.0":
        return hget(t.a[0], t.a[1])
    return mk("fld", t, name)


def withf(t, name, v):
    if t.op == "agg":
        n = name.split(".", 1)[1] if "." in name else name
        if n in t.a[2]:
            i = t.a[2].index(n)
            f = t.a[3]
            return mk("agg", t.a[0], t.a[1], t.a[2], f[:i] + (v,) + f[i + 1:])
    if v.op == "fld" and v.a == (t, name):
        return t
    if t.op == "with":
        if t.a[1] == name:
            return withf(t.a[0], name, v)
        if name < t.a[1]:  # canonical order
            return mk("with", withf(t.a[0], name, v), t.a[1], t.a[2])
    return mk("with", t, name, v)


VEC0 = mk("vec0")
BV = mk("bv", 0)  # bound index of gen / sorted


def isv(t, v):
    """t is variant v"""
    if t.op == "agg":
        return boolc(t.a[1] == v)
    if t.op == "hold":  # what a map had under a key before insert / remove
        c = has(t.a[0], t.a[1])
        return c if v == "Some" else neg(c)
    return mk("is", t, v)


def length(t):
    o = t.op
    if o == "vec0":
        return num(0)
    if o == "arr":
        return num(len(t.a))
    if o == "push":
        return add(length(t.a[0]), num(1))
    if o == "fill":
        return t.a[1]
    if o == "gen":
        return t.a[0]
    if o in ("upd", "sorted", "map"):
        return length(t.a[0])
    if o == "slice":
        return sub(t.a[2], t.a[1])
    if o == "concat":
        return add(length(t.a[0]), length(t.a[1]))
    if o in ("init", "rem", "swaprem"):
        return add(length(t.a[0]), num(-1))
    if o == "ins":
        return add(length(t.a[0]), num(1))
    if o == "str":
        return num(len(t.a[0]))
    return mk("len", t)


def sel(t, i, facts=None):
    o = t.op
    if o == "arr" and isnum(i) and 0 <= i.a[0] < len(t.a):
        return t.a[i.a[0]]
    if o == "fill":
        return t.a[0]
    if o == "gen":
        return subst(t.a[1], {BV: i})
    if o == "slice":
        return sel(t.a[0], add(t.a[1], i), facts)
    if o == "upd":
        e = eq(t.a[1], i)
        d = e.a[0] if e.op == "bool" else (facts.decide(e) if facts else None)
        if d is True:
            return t.a[2]
        if d is False:
            return sel(t.a[0], i, facts)
    if o == "push":
        e = eq(i, length(t.a[0]))
        d = e.a[0] if e.op == "bool" else (facts.decide(e) if facts else None)
        if d is True:
            return t.a[1]
        if d is False:
            return sel(t.a[0], i, facts)
    if o == "init":
        return sel(t.a[0], i, facts)
    if o == "concat":
        c = lt(i, length(t.a[0]))
        d = c.a[0] if c.op == "bool" else (facts.decide(c) if facts else None)
        if d is True:
            return sel(t.a[0], i, facts)
        if d is False:
            return sel(t.a[1], sub(i, length(t.a[0])), facts)
    return mk("sel", t, i)


def upd(t, i, v):
    if v.op == "sel" and v.a == (t, i):
        return t
    if t.op == "upd" and t.a[1] is i:
        return upd(t.a[0], i, v)
    if t.op == "arr" and isnum(i) and 0 <= i.a[0] < len(t.a):
        l = list(t.a)
        l[i.a[0]] = v
        return mk("arr", *l)
    if t.op == "slice":
        return mk("upd", t, i, v)
    if t.op == "push" and eq(i, length(t.a[0])) is TRUE:
        return mk("push", t.a[0], v)
    return mk("upd", t, i, v)


def slice_(t, lo, hi):
    if intval(lo) == 0 and hi is length(t):
        return t
    if t.op == "slice":
        return slice_(t.a[0], add(t.a[1], lo), add(t.a[1], hi))
    if lo is hi:
        return VEC0
    if intval(lo) == 0 and t.op == "push" and hi is length(t.a[0]):
        return t.a[0]
    if intval(lo) == 0 and t.op in ("push", "concat", "arr"):
        # a prefix that does not reach the appended part
        if t.op == "arr" and isnum(hi) and 0 <= hi.a[0] <= len(t.a):
            return mk("arr", *t.a[:hi.a[0]]) if hi.a[0] else VEC0
        if t.op == "push":
            d = sub(length(t.a[0]), hi)
            if isnum(d) and d.a[0] >= 0:
                return slice_(t.a[0], lo, hi)
        if t.op == "concat" and hi is length(t.a[0]):
            return t.a[0]
    if t.op == "fill":
        return mk("fill", t.a[0], sub(hi, lo))
    return mk("slice", t, lo, hi)


def concat(a, b):
    if a is VEC0:
        return b
    if b is VEC0:
        return a
    if b.op == "arr":
        for x in b.a:
            a = mk("push", a, x)
        return a
    return mk("concat", a, b)


def vpush(v, x):
    if v.op == "arr":
        return mk("arr", *(v.a + (x,)))
    if v is VEC0:
        return mk("arr", x)
    return mk("push", v, x)


HNEW = mk("hnew")


def hlen(m):
    if m.op == "hnew":
        return num(0)
    return mk("hlen", m)


def hget(m, k, facts=None):
    """value under key k (which is known to be there)"""
    if m.op == "hput":
        e = eq(m.a[1], k)
        d = e.a[0] if e.op == "bool" else (facts.decide(e) if facts else None)
        if d is True:
            return m.a[2]
        if d is False:
            return hget(m.a[0], k, facts)
    if m.op == "hdel":
        e = eq(m.a[1], k)
        d = e.a[0] if e.op == "bool" else (facts.decide(e) if facts else None)
        if d is False:
            return hget(m.a[0], k, facts)
    return mk("hget", m, k)


def has(m, k, facts=None):
    if m.op == "hnew":
        return FALSE
    if m.op in ("hput", "hdel"):
        e = eq(m.a[1], k)
        d = e.a[0] if e.op == "bool" else (facts.decide(e) if facts else None)
        if d is True:
            return boolc(m.op == "hput")
        if d is False:
            return has(m.a[0], k, facts)
    return mk("has", m, k)


def hdel(m, k):
    if m.op == "hput" and m.a[1] is k:
        return hdel(m.a[0], k)
    if m.op == "hdel" and m.a[1] is k:
        return m
    if m.op == "hnew":
        return m
    return mk("hdel", m, k)


def b2i(c):
    """a truth value as number"""
    if c.op == "bool":
        return num(int(c.a[0]))
    return mk("b2i", c)


def hput(m, k, v):
    if m.op in ("hput", "hdel") and m.a[1] is k:
        return hput(m.a[0], k, v)
    if v.op == "hget" and v.a == (m, k):
        return m
    return mk("hput", m, k, v)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    if not callable(pred):
        p = pred
        return any(x is p for x in subterms(t))
    return any(pred(x) for x in subterms(t))


def rebuild(op, a):
    """re-create a term through its smart constructor"""
    if op == "aff":
        r = num(a[0])
        for t, k in a[1]:
            r = add(r, scale(t, k))
        return r
    if op == "fld":
        return fld(*a)
    if op == "with":
        return withf(*a)
    if op == "sel":
        return sel(*a)
    if op == "upd":
        return upd(*a)
    if op == "len":
        return length(*a)
    if op == "slice":
        return slice_(*a)
    if op == "concat":
        return concat(*a)
    if op == "push":
        return vpush(*a)
    if op == "hget":
        return hget(*a)
    if op == "has":
        return has(*a)
    if op == "hput":
        return hput(*a)
    if op == "hlen":
        return hlen(*a)
    if op == "hdel":
        return hdel(*a)
    if op == "b2i":
        return b2i(*a)
    if op == "lt0":
        return lt0(*a)
    if op == "eq0":
        return eq(a[0], num(0))
    if op == "eq":
        return eq(*a)
    if op == "not":
        return neg(*a)
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    if op == "mul":
        return mul(*a)
    if op == "is":
        return isv(*a)
    return mk(op, *a)


def subst(t, f, memo=None):
    """f: dict or callable T -> T|None"""
    if memo is None:
        memo = {}
    get = f.get if isinstance(f, dict) else f

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        y = get(x)
        if y is None:
            na = tuple(go(z) for z in x.a)
            same = all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, x.a))
            y = x if same else rebuild(x.op, na)
        memo[x] = y
        return y

    return go(t)


# ---------------------------------------------------------------- facts
class Facts:
    __slots__ = ("iv", "ne", "var", "bl", "ors")

    def __init__(self):
        self.iv, self.ne, self.var, self.bl, self.ors = {}, {}, {}, {}, ()

    def copy(self):
        f = Facts()
        f.iv, f.ne, f.var, f.bl, f.ors = dict(self.iv), dict(self.ne), dict(self.var), dict(self.bl), self.ors
        return f

    # interval of an affine expression
    def _base(self, d):
        c, m = aff(d)
        b, flip = signnorm(mkaff(0, m))
        return c, b, flip

    def _direct(self, d):
        if isnum(d):
            return d.a[0], d.a[0]
        c, b, flip = self._base(d)
        lo, hi = self.iv.get(b, (None, None))
        m = aff(b)[1]
        if all(k > 0 and nonneg(t) for t, k in m.items()):
            lo = 0 if lo is None else max(lo, 0)
        if all(k < 0 and nonneg(t) for t, k in m.items()):
            hi = 0 if hi is None else min(hi, 0)
        if flip:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def interval(self, d, depth=2):
        lo, hi = self._direct(d)
        if isnum(d) or depth == 0:
            return lo, hi
        # combine with one known difference constraint
        terms = set(aff(d)[1])
        for b, (bl, bh) in list(self.iv.items()):
            if not (terms & set(aff(b)[1])):
                continue
            for s in (1, -1):
                r = sub(d, scale(b, s))
                if len(aff(r)[1]) > len(terms) + 1:
                    continue
                rl, rh = self._direct(r) if depth == 1 else self.interval(r, depth - 1) if len(aff(r)[1]) <= len(terms) else self._direct(r)
                l2, h2 = (bl, bh) if s == 1 else ((None if bh is None else -bh), (None if bl is None else -bl))
                if l2 is not None and rl is not None:
                    lo = l2 + rl if lo is None else max(lo, l2 + rl)
                if h2 is not None and rh is not None:
                    hi = h2 + rh if hi is None else min(hi, h2 + rh)
        return lo, hi

    def decide(self, c):
        o = c.op
        if o == "bool":
            return c.a[0]
        if o == "not":
            r = self.decide(c.a[0])
            return None if r is None else not r
        if o == "and":
            x, y = self.decide(c.a[0]), self.decide(c.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if o == "or":
            x, y = self.decide(c.a[0]), self.decide(c.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        if o == "lt0":
            lo, hi = self.interval(c.a[0])
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            if lo is not None and lo == -1 and hi == 0:
                pass
            return None
        if o == "eq0":
            lo, hi = self.interval(c.a[0])
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            cc, b, flip = self._base(c.a[0])
            v = cc if flip else -cc
            if v in self.ne.get(b, ()):
                return False
            return self.bl.get(c)
        if o == "is":
            t, v = c.a
            if t.op == "agg":
                return t.a[1] == v
            k = self.var.get(t)
            if k is None:
                return None
            if k[0] == "is":
                return k[1] == v
            if v in k[1]:
                return False
            return None
        return self.bl.get(c)

    def assume(self, c, val=True):
        """new facts or None when contradictory"""
        if not val:
            c = neg(c)
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        o = c.op
        if o == "and":
            f = self.assume(c.a[0])
            return f.assume(c.a[1]) if f else None
        f = self.copy()
        if o == "or":
            x, y = self.decide(c.a[0]), self.decide(c.a[1])
            if x is False:
                return self.assume(c.a[1])
            if y is False:
                return self.assume(c.a[0])
            f.ors = f.ors + (c,)
            return f
        if o == "lt0":
            cc, b, flip = self._base(c.a[0])
            lo, hi = f.iv.get(b, (None, None))
            # cc + s*b < 0
            if not flip:
                n = -cc - 1
                hi = n if hi is None else min(hi, n)
            else:
                n = cc + 1
                lo = n if lo is None else max(lo, n)
            return f._setiv(b, lo, hi)
        if o == "eq0":
            cc, b, flip = self._base(c.a[0])
            n = cc if flip else -cc
            lo, hi = f.iv.get(b, (None, None))
            if lo is not None and n < lo or hi is not None and n > hi:
                return None
            return f._setiv(b, n, n)
        if o == "not" and c.a[0].op == "eq0":
            cc, b, flip = self._base(c.a[0].a[0])
            n = cc if flip else -cc
            f.ne[b] = f.ne.get(b, frozenset()) | {n}
            lo, hi = f._direct(b)
            return f._setiv(b, lo, hi)
        if o == "is":
            f.var[c.a[0]] = ("is", c.a[1])
            return f._ors()
        if o == "not" and c.a[0].op == "is":
            t, v = c.a[0].a
            k = f.var.get(t)
            ex = (k[1] if k and k[0] == "not" else frozenset()) | {v}
            f.var[t] = ("not", ex)
            vs = VARIANTS.get(t)
            if vs:
                left = [x for x in vs if x not in ex]
                if not left:
                    return None
                if len(left) == 1:
                    f.var[t] = ("is", left[0])
            return f._ors()
        if o == "not":
            f.bl[c.a[0]] = False
        else:
            f.bl[c] = True
        return f._ors()

    def _setiv(self, b, lo, hi):
        ne = self.ne.get(b, ())
        while lo is not None and lo in ne and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in ne and (lo is None or lo <= hi):
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        if (lo, hi) != (None, None):
            self.iv[b] = (lo, hi)
        return self._ors()

    def _ors(self):
        if not self.ors:
            return self
        f = self
        for c in self.ors:
            x, y = f.decide(c.a[0]), f.decide(c.a[1])
            if x is False and y is False:
                return None
        return f

    def assume_all(self, lits):
        f = self
        for c in lits:
            if f is None:
                return None
            f = f.assume(c)
        return f

    # equality of two terms under the facts
    def same(self, a, b, depth=12):
        if a is b:
            return True
        if depth == 0:
            return False
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return all(self.same(x, y, depth - 1) for x, y in zip(a, b))
            return a == b
        # boolean terms that the facts decide
        if a.op == "bool" or b.op == "bool":
            x, y = self.decide(a), self.decide(b)
            if x is not None and y is not None:
                return x == y
            return False
        # a known variant
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and x.a[1] is not None and y.op != "agg":
                if self.decide(isv(y, x.a[1])) is not True:
                    return False
                return all(self.same(fx, fld(y, x.a[1] + "." + n), depth - 1) for n, fx in zip(x.a[2], x.a[3]))
        INTLIKE = ("aff",)
        if a.op in INTLIKE or b.op in INTLIKE or True:
            if a.op not in ("agg", "with", "arr", "push", "upd", "str", "float", "ref", "hput", "hdel", "vec0"):
                if b.op not in ("agg", "with", "arr", "push", "upd", "str", "float", "ref", "hput", "hdel", "vec0"):
                    lo, hi = self.interval(sub(a, b))
                    if lo == 0 and hi == 0:
                        return True
        if a.op == b.op and len(a.a) == len(b.a):
            if a.op == "aff":
                if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
                    return False
                return all(self.same(x[0], y[0], depth - 1) and x[1] == y[1] for x, y in zip(a.a[1], b.a[1]))
            if all(self.same(x, y, depth - 1) for x, y in zip(a.a, b.a)):
                return True
        # re-normalise selections under the facts
        na, nb = self.norm(a), self.norm(b)
        if na is not a or nb is not b:
            return self.same(na, nb, depth - 1)
        # pointwise updates that are no change under the facts
        for x, y in ((a, b), (b, a)):
            if x.op == "upd" and self.same(x.a[2], sel(x.a[0], x.a[1], self), depth - 1):
                return self.same(x.a[0], y, depth - 1)
            if x.op == "with" and self.same(x.a[2], fld(x.a[0], x.a[1]), depth - 1):
                return self.same(x.a[0], y, depth - 1)
        return False

    def simp(self, t, memo=None):
        """normal form under the facts"""
        memo = {} if memo is None else memo

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            na = tuple(go(z) for z in x.a)
            y = x if all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, x.a)) else rebuild(x.op, na)
            if y.op == "sel":
                y = sel(y.a[0], y.a[1], self)
            elif y.op == "hget":
                y = hget(y.a[0], y.a[1], self)
            elif y.op == "b2i":
                d = self.decide(y.a[0])
                if d is not None:
                    y = num(int(d))
            elif y.op in ("lt0", "eq0", "is", "not", "and", "or", "has"):
                d = self.decide(y)
                if d is not None:
                    y = boolc(d)
            elif y.op == "upd" and self.same0(y.a[2], sel(y.a[0], y.a[1], self)):
                y = y.a[0]
            memo[x] = y
            return y

        return go(t)

    def same0(self, a, b):
        return a is b

    def eqv(self, a, b):
        """equal under the facts (a and b are simplified first)"""
        if self.same(a, b):
            return True
        return self.same(self.simp(a), self.simp(b))

    def infeasible(self, limit=4000):
        """linear contradiction among the interval constraints (Fourier-Motzkin over the rationals, integers tightened)"""
        cons = set()
        terms = set()
        for b, (lo, hi) in self.iv.items():
            c, m = aff(b)
            terms.update(m)
            if hi is not None:
                cons.add((hi - c, tuple(sorted(((t.n, k) for t, k in m.items())))))   # sum <= rhs
            if lo is not None:
                cons.add((c - lo, tuple(sorted(((t.n, -k) for t, k in m.items())))))
        for t in terms:
            if nonneg(t):
                cons.add((0, ((t.n, -1),)))
        vs = sorted({n for _, m in cons for n, _ in m})
        for v in vs:
            pos = [x for x in cons if dict(x[1]).get(v, 0) > 0]
            neg_ = [x for x in cons if dict(x[1]).get(v, 0) < 0]
            rest = {x for x in cons if v not in dict(x[1])}
            for r1, m1 in pos:
                for r2, m2 in neg_:
                    a, b = dict(m1)[v], -dict(m2)[v]
                    d = {}
                    for n, k in m1:
                        d[n] = d.get(n, 0) + b * k
                    for n, k in m2:
                        d[n] = d.get(n, 0) + a * k
                    r = b * r1 + a * r2
                    d = {n: k for n, k in d.items() if k}
                    if not d:
                        if r < 0:
                            return True
                        continue
                    rest.add((r, tuple(sorted(d.items()))))
            if len(rest) > limit:
                return False
            cons = rest
        return any(not m and r < 0 for r, m in cons)

    def norm(self, t):
        if t.op == "sel":
            return sel(t.a[0], t.a[1], self)
        if t.op == "hget":
            return hget(t.a[0], t.a[1], self)
        return t


VARIANTS = {}  # term of enum type -> all variant names

_names = {}


def show(t, depth=7):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, depth - 1)
    if o == "aff":
        if not a[1]:
            return str(a[0])
        r = ""
        for x, k in a[1]:
            r += (" + " if k > 0 else " - ") if r else ("" if k > 0 else "-")
            r += s(x) if abs(k) == 1 else "%d*%s" % (abs(k), s(x))
        if a[0]:
            r += " %s %d" % ("+" if a[0] > 0 else "-", abs(a[0]))
        return "(" + r + ")"
    if o == "bool":
        return str(a[0]).lower()
    if o == "float":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "agg":
        nm = a[0].split("::")[-1] if a[0] != "()" else ""
        if a[1]:
            nm = a[1]
        if a[0] == "()":
            return "(" + ", ".join(s(x) for x in a[3]) + ")"
        return nm + ("{" + ", ".join("%s: %s" % (n, s(x)) for n, x in zip(a[2], a[3])) + "}" if a[3] else "")
    if o == "fld":
        return s(a[0]) + "." + a[1]
    if o == "sel":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "lt0":
        return s(a[0]) + " < 0"
    if o == "eq0":
        return s(a[0]) + " == 0"
    if o == "is":
        return s(a[0]) + " is " + a[1]
    if o == "not":
        return "!(" + s(a[0]) + ")"
    if o in ("and", "or"):
        return "(" + s(a[0]) + " " + o + " " + s(a[1]) + ")"
    if o == "sym":
        return str(a[0])
    if o == "k":
        return "k%s" % _short(a[0])
    if o == "phi":
        return "phi%s:%s" % (_short(a[0]), a[2] if len(a) > 2 else a[1])
    if o in ("ret", "after"):
        return "%s%s" % (a[1].split("::")[-1] if o == "ret" else "after", _short(a[0])) + ("" if o == "ret" else "." + str(a[1]))
    if o == "ref":
        return "&" + str(a[1]) + "".join("." + (e[1] if e[0] == "f" else e[0] + show(e[1:], depth - 1)) for e in a[2])
    return o + "(" + ", ".join(s(x) for x in a) + ")"


def _short(x):
    if x not in _names:
        _names[x] = "#%d" % len(_names)
    return _names[x]

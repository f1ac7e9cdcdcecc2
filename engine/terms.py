"""Value terms of the abstract domain: hash-consed, normalised by construction.

A term denotes a value as a function of the entry state of the analysed function (value
numbering).  Normal forms:
  * integers are polynomials with integer coefficients over opaque atoms,
  * booleans and conditional values are reduced ordered (multi-terminal) decision diagrams,
  * memory contents are functional update terms (sub / upd / cat / resize / mapset ...),
  * loops are `rec` terms with canonically numbered binders.
Two terms that are the same object denote the same value.
"""
import hashlib
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "a", "h", "sz", "unk", "temps", "hb", "_s", "o")

    def __repr__(self):
        return pp(self)


_table = {}
_EMPTY = frozenset()


def raw(op, *a):
    k = (op,) + tuple((id(x) if isinstance(x, T) else (type(x).__name__, x)) for x in a)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    m = hashlib.md5()
    m.update(op.encode())
    sz = 1
    unk = op == "unk"
    temps = _EMPTY
    hb = 0
    for x in a:
        if isinstance(x, T):
            m.update(b"T" + x.h)
            sz += x.sz
            unk = unk or x.unk
            if x.temps:
                temps = temps | x.temps
            if x.hb > hb:
                hb = x.hb
        else:
            m.update((type(x).__name__ + ":" + repr(x)).encode())
    if op in ("kv", "phi"):  # free loop variables: ("kv", uid) / ("phi", uid, i)
        temps = temps | frozenset([a[0]])
    if op in ("bk", "bphi"):
        hb = max(hb, a[0])
    t.h = m.digest()
    t.sz = min(sz, 10 ** 9)
    t.unk = unk
    t.temps = temps
    t.hb = hb
    t._s = None
    t.o = len(_table)
    _table[k] = t
    return t


KEYORD = True


def creation_order(on):
    """Variable order of decision diagrams: structural (the same in every process, so that normal
    forms can be compared), or by creation (smaller diagrams for some large functions)."""
    global KEYORD
    KEYORD = not on
    _ite_cache.clear()
    _con_cache.clear()


def order(t):
    return (t.sz, t.h) if KEYORD else t.o


def key(t):
    return (t.sz, t.h)


TRUE = raw("true")
FALSE = raw("false")
UNIT = raw("tuple")
DC = raw("dc")  # value of an unreachable alternative
_unk = [0]


def unk(why="?"):
    _unk[0] += 1
    return raw("unk", str(why), _unk[0])


# ------------------------------------------------------------------ booleans / decision diagrams
BOOLOPS = {"ge0", "eq", "flt", "fle", "is", "exists", "bv", "has", "mapeq", "iseq"}


def is_boolatom(t):
    return t.op in BOOLOPS


def _top(t):
    if t.op == "ite":
        return t.a[0]
    if t.op in BOOLOPS:
        return t
    return None


def _cof(t, v, val):
    if t is v:
        return TRUE if val else FALSE
    if t.op == "ite" and t.a[0] is v:
        return t.a[1] if val else t.a[2]
    return t


def _node(v, hi, lo):
    if hi is lo:
        return hi
    if hi is DC:
        return lo
    if lo is DC:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    # same constructor: conditional values of structures are structures of conditional values
    if hi.op == lo.op == "adt" and hi.a[0] == lo.a[0] and hi.a[1] == lo.a[1] and len(hi.a) == len(lo.a):
        return raw("adt", *[(x if not isinstance(x, T) else ite(v, x, y)) for x, y in zip(hi.a, lo.a)])
    if hi.op == lo.op == "tuple" and len(hi.a) == len(lo.a):
        return raw("tuple", *[ite(v, x, y) for x, y in zip(hi.a, lo.a)])
    if hi.op == lo.op == "it" and hi.a[0] is lo.a[0] and hi.a[2:] == lo.a[2:]:
        return raw("it", hi.a[0], ite(v, hi.a[1], lo.a[1]), *hi.a[2:])
    mm = _minmax(v, hi, lo)
    if mm is not None:
        return mm
    r = _fold_eq(v, hi, lo)
    if r is not None:
        return r
    return raw("ite", v, hi, lo)


def _fold_eq(v, hi, lo):
    # if a == b then a else b  ->  b
    if v.op == "eq":
        x, y = v.a
        if (hi is x and lo is y) or (hi is y and lo is x):
            return lo
    return None


def _minmax(v, hi, lo):
    if v.op == "ge0" and is_intish(hi) and is_intish(lo):
        p = v.a[0]
        d = sub(hi, lo)
        if d.op == "ite":
            return None
        # hi chosen when p >= 0
        for c in (0, 1):
            q = add(p, num(c))
            if d is q:
                return mk_max(hi, lo)
            if d is neg(q):
                return mk_min(hi, lo)
    return None


_ite_cache = {}
MAXITE = 400000
_ite_calls = [0]


class TooBig(Exception):
    """The decision-diagram budget of the current analysis is spent."""


LIMIT = [1 << 62]


def set_budget(n):
    LIMIT[0] = _ite_calls[0] + n


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is DC:
        return b
    if b is DC:
        return a
    k = (id(c), id(a), id(b))
    r = _ite_cache.get(k)
    if r is not None:
        return r
    if not (c.op == "ite" or c.op in BOOLOPS):
        if c.op == "unk" or c.unk:
            c = raw("bv", c)
        else:
            c = raw("bv", c)
        return ite(c, a, b)
    _ite_calls[0] += 1
    if _ite_calls[0] > LIMIT[0]:
        raise TooBig()
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    v = min(tops, key=order)
    hi = ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True))
    lo = ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False))
    r = _node(v, hi, lo)
    _ite_cache[k] = r
    return r


def bnot(x):
    return ite(x, FALSE, TRUE)


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


_con_cache = {}


def constrain(f, c):
    """Generalised cofactor of f with respect to c (c is not FALSE)."""
    if c is TRUE or f in (TRUE, FALSE):
        return f
    if f.op != "ite" and f.op not in BOOLOPS:
        return f
    if c is FALSE:
        return f
    if f is c:
        return TRUE
    k = (id(f), id(c))
    r = _con_cache.get(k)
    if r is not None:
        return r
    vs = [x for x in (_top(f), _top(c)) if x is not None]
    v = min(vs, key=order)
    c1, c0 = _cof(c, v, True), _cof(c, v, False)
    if c1 is FALSE:
        r = constrain(_cof(f, v, False), c0)
    elif c0 is FALSE:
        r = constrain(_cof(f, v, True), c1)
    else:
        # restrict: do not branch on variables f does not mention
        if not (f.op == "ite" and f.a[0] is v or f is v):
            r = constrain(f, bor(c1, c0))
        else:
            r = _node(v, constrain(_cof(f, v, True), c1), constrain(_cof(f, v, False), c0))
    _con_cache[k] = r
    return r


def literals(c):
    """Literals (atom, polarity) implied by c."""
    out = []
    while c.op == "ite" or c.op in BOOLOPS:
        if c.op in BOOLOPS:
            out.append((c, True))
            break
        v, hi, lo = c.a
        if lo is FALSE:
            out.append((v, True))
            c = hi
        elif hi is FALSE:
            out.append((v, False))
            c = lo
        else:
            # literals common to both branches
            a = set(literals(hi))
            out.extend(x for x in literals(lo) if x in a)
            break
    return out


def atoms_of(c, acc=None):
    """Decision variables of a diagram."""
    if acc is None:
        acc = {}
    if c.op == "ite":
        acc[c.a[0]] = 1
        atoms_of(c.a[1], acc)
        atoms_of(c.a[2], acc)
    elif c.op in BOOLOPS:
        acc[c] = 1
    return acc


def leaves(t, acc=None):
    if acc is None:
        acc = {}
    if t.op == "ite":
        leaves(t.a[1], acc)
        leaves(t.a[2], acc)
    else:
        acc[t] = 1
    return acc


def lift1(f, x):
    """Apply f to the leaves of a conditional value."""
    if x.op == "ite":
        return ite(x.a[0], lift1(f, x.a[1]), lift1(f, x.a[2]))
    return f(x)


def lift(f, *xs):
    """Apply f to the leaves of conditional arguments: the conditions in their order, each split only once."""
    memo = {}

    def go(xs):
        tops = [x.a[0] for x in xs if isinstance(x, T) and x.op == "ite"]
        if not tops:
            if any(x is DC for x in xs):
                return DC
            return f(*xs)
        k = tuple(map(id, xs))
        r = memo.get(k)
        if r is None:
            v = tops[0] if len(tops) == 1 else min(tops, key=order)
            cof = [x.a[1:] if isinstance(x, T) and x.op == "ite" and x.a[0] is v else (x, x) for x in xs]
            hi, lo = [y[0] for y in cof], [y[1] for y in cof]
            r = memo[k] = ite(v, go(hi), go(lo))
            keep.append((hi, lo))
        return r

    keep = []  # (identities in the table stay valid)
    return go(list(xs))


# ------------------------------------------------------------------ integers
UNSIGNED = set()  # ids of atoms known to be unsigned


def num(n):
    return raw("num", int(n))


ZERO = num(0)
ONE = num(1)


def poly(t):
    """dict: monomial (tuple of atoms, sorted) -> coefficient"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "int":
        n = len(t.a)
        d = {}
        i = 0
        while i < n:
            c, m = t.a[i], t.a[i + 1]
            d[tuple(m.a)] = c
            i += 2
        return d
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), [key(x) for x in mc[0]]))
    flat = []
    for m, c in items:
        flat.append(c)
        flat.append(raw("mono", *m))
    return raw("int", *flat)


def is_intish(t):
    return t.op in ("num", "int") or t in UNSIGNED or t.op in ("len", "div", "rem", "min", "max", "kv", "bk", "cast", "size_of", "align_of")


def _add(a, b):
    d = dict(poly(a))
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def add(a, b):
    return lift(_add, a, b)


def _neg(a):
    return from_poly({m: -c for m, c in poly(a).items()})


def neg(a):
    return lift1(_neg, a)


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    d = {}
    for m1, c1 in poly(a).items():
        for m2, c2 in poly(b).items():
            m = tuple(sorted(m1 + m2, key=key))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def mul(a, b):
    return lift(_mul, a, b)


def _div(a, b):
    if a.op == "num" and b.op == "num" and b.a[0] != 0 and a.a[0] >= 0 and b.a[0] > 0:
        return num(a.a[0] // b.a[0])
    if b is ONE:
        return a
    pb = poly(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q = {}
        for m, c in poly(a).items():
            l = list(m)
            ok = c % cb == 0
            if ok:
                for x in mb:
                    if x in l:
                        l.remove(x)
                    else:
                        ok = False
                        break
            if not ok:
                q = None
                break
            q[tuple(l)] = c // cb
        if q is not None and (mb or True):
            return from_poly(q)
    return raw("div", a, b)


def div(a, b):
    return lift(_div, a, b)


def _rem(a, b):
    if a.op == "num" and b.op == "num" and b.a[0] > 0 and a.a[0] >= 0:
        return num(a.a[0] % b.a[0])
    if b is ONE:
        return ZERO
    q = _div(a, b)
    if q.op != "div":
        return ZERO
    # drop multiples of b
    pb = poly(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        d = {}
        for m, c in poly(a).items():
            l = list(m)
            ok = c % cb == 0
            for x in mb:
                if x in l:
                    l.remove(x)
                else:
                    ok = False
                    break
            if not ok:
                d[m] = c
        rest = from_poly(d)
        if len(d) != len(poly(a)) and nonneg(rest):  # (rest + k*b) mod b, for a rest that cannot be negative
            return _rem(rest, b)
    return raw("rem", a, b)


def rem(a, b):
    return lift(_rem, a, b)


def const_val(t):
    return t.a[0] if t.op == "num" else None


def nonneg(t):
    """Syntactic: the term is certainly >= 0."""
    if t.op == "num":
        return t.a[0] >= 0
    if t.op == "int":
        return all(c > 0 and all(nonneg_atom(x) for x in m) for m, c in poly(t).items())
    return nonneg_atom(t)


def nonneg_atom(x):
    if x in UNSIGNED or x.op in ("len", "kv", "bk", "size_of", "align_of", "count", "maplen"):
        return True
    if x.op in ("div", "rem"):
        return nonneg(x.a[0]) and nonneg(x.a[1])
    if x.op in ("min",):
        return all(nonneg(y) for y in x.a)
    if x.op in ("max",):
        return any(nonneg(y) for y in x.a)
    if x.op == "num":
        return x.a[0] >= 0
    return False


def _ge0(p):
    if p.op == "num":
        return TRUE if p.a[0] >= 0 else FALSE
    if nonneg(p):
        return TRUE
    d = poly(p)
    # -(q) with q >= 1 const + nonneg
    n = _neg(p)
    if nonneg(n):
        dn = poly(n)
        if dn.get((), 0) > 0:
            return FALSE
        # p >= 0  <=>  n == 0
        return _eq0(n)
    # q - 1 >= 0 with q nonneg  <=> q != 0
    c = d.get((), 0)
    if c == -1:
        q = from_poly({m: k for m, k in d.items() if m != ()})
        if nonneg(q):
            return bnot(_eq0(q))
    # divide by gcd of coefficients
    from math import gcd
    g = 0
    for m, k in d.items():
        if m != ():
            g = gcd(g, abs(k))
    if g > 1:
        d = {m: (k // g) for m, k in d.items()}  # floor division tightens the constant
        return _ge0(from_poly(d))
    # canonical polarity: the leading monomial has a positive coefficient
    items = sorted(((m, k) for m, k in d.items() if m != ()), key=lambda mc: (len(mc[0]), [key(x) for x in mc[0]]))
    if items[0][1] < 0:
        nd = {m: -k for m, k in d.items()}
        nd[()] = nd.get((), 0) - 1
        return bnot(raw("ge0", from_poly(nd)))
    return raw("ge0", p)


def ge0(p):
    return lift1(_ge0, p)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def _eq0(p):
    if p.op == "num":
        return TRUE if p.a[0] == 0 else FALSE
    d = poly(p)
    if nonneg(p) and d.get((), 0) > 0:
        return FALSE
    n = _neg(p)
    if nonneg(n) and poly(n).get((), 0) > 0:
        return FALSE
    # a sum of nonnegative terms is zero iff each is zero
    if nonneg(p) and len(d) > 1:
        r = TRUE
        for m, k in d.items():
            r = band(r, _eq0(from_poly({m: 1})))
        return r
    if len(d) == 1 and nonneg(p):
        (m, k), = d.items()
        if len(m) > 1:
            r = FALSE
            for x in sorted(set(m), key=key):
                r = bor(r, raw("eq", x, ZERO))
            return r
        return raw("eq", m[0], ZERO)
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), [key(x) for x in mc[0]]))
    lead = [k for m, k in items if m != ()][0]
    if lead < 0:
        d = {m: -k for m, k in d.items()}
    # put positive part left, negative right
    l = from_poly({m: k for m, k in d.items() if k > 0})
    r = from_poly({m: -k for m, k in d.items() if k < 0})
    if key(r) < key(l):
        l, r = r, l
    if r.op == "num" or l.op == "num":
        if l.op == "num":
            l, r = r, l
    return raw("eq", l, r)


def _eq(a, b):
    """Equality of values of any type."""
    if a is b:
        return TRUE
    if a.op in ("num", "int") or b.op in ("num", "int") or (is_intish(a) and is_intish(b)):
        return _eq0(_add(a, _neg(b)))
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if a.op == b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            if isinstance(x, T):
                r = band(r, eq(x, y))
        return r
    if a.op == b.op == "tuple" and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = band(r, eq(x, y))
        return r
    if a.op == "adt" and len(a.a) == 2 and b.op != "adt":
        return is_variant(b, a.a[1], a.a[0])
    if b.op == "adt" and len(b.a) == 2 and a.op != "adt":
        return is_variant(a, b.a[1], b.a[0])
    if a.op == b.op == "str":
        return FALSE
    if key(b) < key(a):
        a, b = b, a
    return raw("eq", a, b)


def eq(a, b):
    return lift(_eq, a, b)


def _mm(op, a, b):
    if a is b:
        return a
    d = _add(a, _neg(b))
    if d.op == "num":
        bigger = a if d.a[0] >= 0 else b
        smaller = b if d.a[0] >= 0 else a
        return bigger if op == "max" else smaller
    if nonneg(d):
        return a if op == "max" else b
    if nonneg(_neg(d)):
        return b if op == "max" else a
    xs = []
    for x in (a, b):
        if x.op == op:
            xs.extend(x.a)
        else:
            xs.append(x)
    xs = sorted(set(xs), key=key)
    return raw(op, *xs)


def mk_min(a, b):
    return lift(lambda x, y: _mm("min", x, y), a, b)


def mk_max(a, b):
    return lift(lambda x, y: _mm("max", x, y), a, b)


# ------------------------------------------------------------------ floats
def fop(op, a, b):
    def f(x, y):
        if op in ("f+", "f*") and key(y) < key(x):
            x, y = y, x
        return raw(op, x, y)

    return lift(f, a, b)


def flt(a, b):
    return lift(lambda x, y: FALSE if x is y else raw("flt", x, y), a, b)


def fle(a, b):
    # partial order: a <= b is not the negation of b < a (NaN)
    return lift(lambda x, y: raw("fle", x, y), a, b)


# ------------------------------------------------------------------ structures
def adt(path, variant, fields):
    """fields: list of (name, value)"""
    flat = []
    for n, v in sorted(fields, key=lambda x: x[0]):
        flat.append(n)
        flat.append(v)
    return raw("adt", path, variant, *flat)


def tup(*xs):
    return raw("tuple", *xs)


def some(x):
    return adt("std::option::Option", 1, [("0", x)])


NONE = adt("std::option::Option", 0, [])


def ok(x):
    return adt("std::result::Result", 0, [("0", x)])


def err(x):
    return adt("std::result::Result", 1, [("0", x)])


TWO_VARIANTS = {"std::option::Option", "std::result::Result", "std::ops::ControlFlow"}


def is_param(x):
    """a parameter, or what a reference parameter refers to"""
    return x.op == "param" or x.op == "*" and x.a[0].op == "param"


def fld(x, name):
    def f(x):
        if x is DC:
            return DC
        if x.op == "adt":
            for i in range(2, len(x.a), 2):
                if x.a[i] == name:
                    return x.a[i + 1]
            return DC
        if x.op == "tuple":
            i = int(name)
            return x.a[i] if i < len(x.a) else DC
        if x.op == "with":
            for i in range(1, len(x.a), 2):
                if x.a[i] == name:
                    return x.a[i + 1]
            return fld(x.a[0], name)
        if x.op == "closure":
            return x.a[1 + int(name)]
        if x.op == "unk":
            return unk(x.a[0])
        return raw("fld", x, name)

    return lift1(f, x)


def with_fld(x, name, v):
    def f(x):
        if x is DC:
            return DC
        if x.op == "adt":
            fs = []
            found = False
            for i in range(2, len(x.a), 2):
                if x.a[i] == name:
                    fs.append((name, v))
                    found = True
                else:
                    fs.append((x.a[i], x.a[i + 1]))
            if not found:
                fs.append((name, v))
            return adt(x.a[0], x.a[1], fs)
        if x.op == "tuple":
            l = list(x.a)
            while len(l) <= int(name):
                l.append(unk("uninit"))
            l[int(name)] = v
            return raw("tuple", *l)
        if x.op == "closure":
            l = list(x.a)
            l[1 + int(name)] = v
            return raw("closure", *l)
        base = x
        fs = {}
        if x.op == "with":
            base = x.a[0]
            for i in range(1, len(x.a), 2):
                fs[x.a[i]] = x.a[i + 1]
        fs[name] = v
        return mk_with(base, fs)

    return lift1(f, x)


def mk_with(base, fs):
    flat = []
    for n in sorted(fs):
        if fs[n] is fld(base, n):
            continue
        flat.append(n)
        flat.append(fs[n])
    if not flat:
        return base
    return raw("with", base, *flat)


def _is_variant(x, v, path):
    if x is DC:
        return DC
    if x.op == "adt":
        return TRUE if x.a[1] == v else FALSE
    if x.op == "with":
        return _is_variant(x.a[0], v, path)
    if path in TWO_VARIANTS:
        if path == "std::option::Option":
            r = raw("is", x, 1)
            return r if v == 1 else bnot(r)
        r = raw("is", x, 0)
        return r if v == 0 else bnot(r)
    if v is None:
        return unk("variant")
    return raw("is", x, v)


def is_variant(x, v, path):
    return lift1(lambda y: _is_variant(y, v, path), x)


def vfld(x, variant, name):
    """Field of a given variant; alternatives of another variant are unreachable."""

    def f(x):
        if x is DC:
            return DC
        if x.op == "adt":
            if x.a[1] != variant:
                return DC
            return fld(x, name)
        if x.op == "tuple":
            return fld(x, name)
        if x.op == "unk":
            return unk(x.a[0])
        return raw("vfld", x, variant, name)

    return lift1(f, x)


# ------------------------------------------------------------------ sequences (memory contents)
def slen(x):
    def f(x):
        if x is DC:
            return DC
        o = x.op
        if o == "sub":
            return x.a[2]
        if o == "upd":
            return slen(x.a[0])
        if o == "iset":
            return slen(x.a[0])
        if o == "cat":
            return add(slen(x.a[0]), slen(x.a[1]))
        if o == "resize":
            return x.a[1]
        if o == "rep":
            return x.a[1]
        if o == "arr":
            return num(len(x.a))
        if o == "vecof":
            return x.a[0]
        if o == "bytes":
            return size_of(x.a[1])
        if o == "str":
            return num(len(x.a[0].encode()))
        if o == "castseq":
            # sequence of elements of size a reinterpreted as elements of size b
            n = mul(slen(x.a[0]), x.a[1])
            return div(n, x.a[2])
        if o == "sorted" or o == "reversed":
            return slen(x.a[0])
        if o == "rec":
            r = rec_len(x)
            if r is not None:
                return r
        if o == "unk":
            return unk(x.a[0])
        return raw("len", x)

    return lift1(f, x)


def rec_len(x):
    """Length of a loop-carried sequence whose body only overwrites elements."""
    # rec: sel, n, (init, next)*
    comps = rec_comps(x)
    init, nxt = comps[0]
    def base(t):
        while t.op in ("upd", "iset"):
            t = t.a[0]
        return t
    ls = leaves(nxt)
    if all(base(l).op == "bphi" and base(l).a[0] == x.a[0] and base(l).a[1] == 0 for l in ls):
        return slen(init)
    return None


def _sub(x, o, l):
    if x is DC or o is DC or l is DC:
        return DC
    if o is ZERO and l is slen(x):
        return x
    if x.op == "sub":
        return _sub(x.a[0], add(x.a[1], o), l)
    if x.op == "rep":
        return raw("rep", x.a[0], l)
    if x.op == "upd":
        b, uo, ul, uv = x.a
        if uo is o and ul is l:
            return uv
        # within the update
        d = sub(o, uo)
        if nonneg(d) and nonneg(sub(add(uo, ul), add(o, l))):
            return ssub(uv, d, l)
        # disjoint
        if nonneg(sub(uo, add(o, l))) or nonneg(sub(o, add(uo, ul))):
            return ssub(b, o, l)
    if x.op == "cat":
        la = slen(x.a[0])
        if nonneg(sub(o, la)):
            return ssub(x.a[1], sub(o, la), l)
        if nonneg(sub(la, add(o, l))):
            return ssub(x.a[0], o, l)
    if x.op == "arr" and o.op == "num" and l.op == "num":
        i, n = o.a[0], l.a[0]
        if 0 <= i and i + n <= len(x.a):
            return raw("arr", *x.a[i:i + n])
    if x.op == "castseq":
        # move the window below the cast when the sizes divide
        b, s, d = x.a[0], x.a[1], x.a[2]
        o2 = div(mul(o, d), s)
        l2 = div(mul(l, d), s)
        if o2.op != "div" and l2.op != "div":
            return castseq(ssub(b, o2, l2), s, d, x.a[3], x.a[4])
    if x.op == "unk":
        return unk(x.a[0])
    return raw("sub", x, o, l)


def ssub(x, o, l):
    return lift(_sub, x, o, l)


def _upd(x, o, l, v):
    if DC in (x, o, l, v):
        return DC
    if o is ZERO and (l is slen(x)):
        return v
    if l is ZERO:
        return x
    if x.op == "castseq":
        b, s, d = x.a[0], x.a[1], x.a[2]
        o2 = div(mul(o, d), s)
        l2 = div(mul(l, d), s)
        if o2.op != "div" and l2.op != "div":
            return castseq(supd(b, o2, l2, castseq(v, d, s, x.a[4], x.a[3])), s, d, x.a[3], x.a[4])
    if x.op == "upd" and x.a[1] is o and x.a[2] is l:
        return supd(x.a[0], o, l, v)
    if v.op == "sub" and v.a[0] is x and v.a[1] is o:
        return x
    # writing part of a previous update
    if x.op == "upd":
        d = sub(o, x.a[1])
        if nonneg(d) and nonneg(sub(add(x.a[1], x.a[2]), add(o, l))):
            return supd(x.a[0], x.a[1], x.a[2], supd(x.a[3], d, l, v))
        # adjacent updates from adjacent source ranges merge
        if o is add(x.a[1], x.a[2]) and v.op == "sub" and x.a[3].op == "sub" and v.a[0] is x.a[3].a[0] and v.a[1] is add(x.a[3].a[1], x.a[3].a[2]):
            return supd(x.a[0], x.a[1], add(x.a[2], l), ssub(v.a[0], x.a[3].a[1], add(x.a[2], l)))
        # sort disjoint constant-distance updates
        if (nonneg(sub(x.a[1], add(o, l)))):
            return raw("upd", supd(x.a[0], o, l, v), x.a[1], x.a[2], x.a[3])
    return raw("upd", x, o, l, v)


def supd(x, o, l, v):
    return lift(_upd, x, o, l, v)


def _idx(x, i):
    if x is DC or i is DC:
        return DC
    if x.op == "sub":
        return _idx(x.a[0], add(x.a[1], i)) if add(x.a[1], i).op != "ite" else idx(x.a[0], add(x.a[1], i))
    if x.op == "arr" and i.op == "num" and 0 <= i.a[0] < len(x.a):
        return x.a[i.a[0]]
    if x.op == "rep":
        return x.a[0]
    if x.op == "vecof":
        return subst_binder(x.a[1], x.a[2] if len(x.a) > 2 else None, i)
    if x.op == "iset":
        b, j, v = x.a
        if i is j:
            return v
        d = sub(i, j)
        if d.op == "num":
            return idx(b, i)
    if x.op == "upd":
        b, o, l, v = x.a
        d = sub(i, o)
        if nonneg(d) and nonneg(sub(sub(l, d), ONE)):
            return idx(v, d)
        if nonneg(sub(sub(o, i), ONE)) or nonneg(sub(i, add(o, l))):
            return idx(b, i)
    if x.op == "cat":
        la = slen(x.a[0])
        if nonneg(sub(i, la)):
            return idx(x.a[1], sub(i, la))
        if nonneg(sub(sub(la, i), ONE)):
            return idx(x.a[0], i)
    if x.op == "castseq":
        # element i of a sequence of values stored in bytes
        b, s, d, st, dt = x.a
        o2 = div(mul(i, d), s)
        l2 = div(d, s)
        if s is ONE:
            return frombytes(ssub(b, mul(i, d), d), dt)
    if x.op == "unk":
        return unk(x.a[0])
    return raw("idx", x, i)


def idx(x, i):
    return lift(_idx, x, i)


def _iset(x, i, v):
    if DC in (x, i, v):
        return DC
    if x.op == "arr" and i.op == "num" and 0 <= i.a[0] < len(x.a):
        l = list(x.a)
        l[i.a[0]] = v
        return raw("arr", *l)
    if x.op == "sub":
        pass
    if x.op == "castseq" and x.a[1] is ONE:
        b, s, d, st, dt = x.a
        return castseq(supd(b, mul(i, d), d, tobytes(v, dt)), s, d, st, dt)
    if v.op == "idx" and v.a[0] is x and v.a[1] is i:
        return x
    if x.op == "iset":
        if x.a[1] is i:
            return iset(x.a[0], i, v)
        d = sub(i, x.a[1])
        if d.op == "num" and d.a[0] < 0:
            return raw("iset", iset(x.a[0], i, v), x.a[1], x.a[2])
    return raw("iset", x, i, v)


def iset(x, i, v):
    return lift(_iset, x, i, v)


def cat(a, b):
    def f(a, b):
        if slen(a) is ZERO:
            return b
        if slen(b) is ZERO:
            return a
        if a.op == "arr" and b.op == "arr":
            return raw("arr", *(a.a + b.a))
        if b.op == "cat":
            return raw("cat", _catf(a, b.a[0]), b.a[1]) if False else raw("cat", f(a, b.a[0]), b.a[1])
        return raw("cat", a, b)

    return lift(f, a, b)


_catf = None


def resize(x, n, v):
    def f(x, n, v):
        if n is slen(x):
            return x
        if x.op in ("rep",) and x.a[0] is v:
            return raw("rep", v, n)
        if slen(x) is ZERO:
            return raw("rep", v, n)
        return raw("resize", x, n, v)

    return lift(f, x, n, v)


def tobytes(x, ty):
    def f(x):
        if x is DC:
            return DC
        if x.op == "frombytes" and x.a[1] == ty:
            return x.a[0]
        return raw("bytes", x, ty)

    return lift1(f, x)


def frombytes(x, ty):
    def f(x):
        if x is DC:
            return DC
        if x.op == "bytes" and x.a[1] == ty:
            return x.a[0]
        return raw("frombytes", x, ty)

    return lift1(f, x)


SIZES = {"usize": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "isize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "f32": 4, "f64": 8, "bool": 1, "char": 4}


def size_of(ty):
    if ty in SIZES:
        return num(SIZES[ty])
    return raw("size_of", ty)


def castseq(x, s, d, st, dt):
    """Reinterpret a sequence of elements of size s (type st) as elements of size d (type dt)."""

    def f(x):
        if st == dt:
            return x
        if x.op == "castseq" and x.a[3] == dt and x.a[4] == st:
            return x.a[0]
        return raw("castseq", x, s, d, st, dt)

    return lift1(f, x)


# ------------------------------------------------------------------ maps
def mapget(m, k):
    def f(m):
        if m is DC:
            return DC
        if m.op in ("mapset", "mapins"):
            if m.a[1] is k:
                return m.a[2]
            if distinct(m.a[1], k):
                return mapget(m.a[0], k)
        if m.op == "unk":
            return unk(m.a[0])
        return raw("mapget", m, k)

    return lift1(f, m)


def distinct(a, b):
    if a.op == "str" and b.op == "str":
        return a is not b
    if a.op == "num" and b.op == "num":
        return a is not b
    return False


def mapset(m, k, v):
    def f(m, v):
        if DC in (m, v):
            return DC
        if m.op in ("mapset", "mapins") and m.a[1] is k:
            return raw("mapins", m.a[0], k, v) if m.op == "mapins" else mapset(m.a[0], k, v)
        if v.op == "mapget" and v.a[0] is m and v.a[1] is k:
            return m
        return raw("mapset", m, k, v)

    return lift(f, m, v)


def mapins(m, k, v):
    def f(m, v):
        if DC in (m, v):
            return DC
        if m.op in ("mapset", "mapins") and m.a[1] is k:
            m = m.a[0]
        return raw("mapins", m, k, v)

    return lift(f, m, v)


def mapbase(t):
    """Map with the same key set."""
    while True:
        if t.op == "mapset":
            t = t.a[0]
            continue
        if t.op == "rec":
            init, nxt = rec_comps(t)[0]
            if all(mapbase(l).op == "bphi" and mapbase(l).a == (t.a[0], 0) for l in leaves(nxt)):
                t = init
                continue
        return t


def maphas(m, k):
    def f(m):
        if m is DC:
            return DC
        m = mapbase(m)
        if m.op == "mapins":
            if m.a[1] is k:
                return TRUE
            if distinct(m.a[1], k):
                return maphas(m.a[0], k)
        if m.op == "mapnew":
            return FALSE
        return raw("has", m, k)

    return lift1(f, m)


# ------------------------------------------------------------------ binders
def subst_binder(body, h, i):
    return subst(body, {raw("bk", h): i})


def rec_comps(x):
    # ("rec", h, K, init0, next0, init1, next1, ...)
    r = []
    for i in range(2, len(x.a), 2):
        r.append((x.a[i], x.a[i + 1]))
    return r


def mk_rec(uid, K, comps, sel):
    """Value of component `sel` of a simultaneous recurrence after K steps.
    comps: list of (init, next) where next mentions ("kv",uid), ("phi",uid,i)."""
    # reachable components in discovery order from sel
    order = [sel]
    seen = {sel}
    i = 0
    while i < len(order):
        for j in phis_in(comps[order[i]][1], uid):
            if j not in seen:
                seen.add(j)
                order.append(j)
        i += 1
    h = 1 + max([comps[j][1].hb for j in order] + [0])
    m = {raw("kv", uid): raw("bk", h)}
    for n, j in enumerate(order):
        m[raw("phi", uid, j)] = raw("bphi", h, n)
    flat = []
    for j in order:
        flat.append(comps[j][0])
        flat.append(subst(comps[j][1], m))
    return build_rec(h, K, *flat)


def build_rec(h, K, *flat):
    if K.op == "ite":
        return ite(K.a[0], build_rec(h, K.a[1], *flat), build_rec(h, K.a[2], *flat))
    if K is ZERO:
        return flat[0]
    if flat[0].op == "ite":
        t = flat[0]
        return ite(t.a[0], build_rec(h, K, t.a[1], *flat[1:]), build_rec(h, K, t.a[2], *flat[1:]))
    r = simp_rec(h, K, flat)
    if r is not None:
        return r
    return raw("rec", h, K, *flat)


def has_binder(t, h):
    return t.hb >= h and _has_b(t, h, {})


def _has_b(t, h, memo):
    if t.hb < h:
        return False
    k = id(t)
    if k in memo:
        return memo[k]
    if t.op in ("bk", "bphi") and t.a[0] == h:
        memo[k] = True
        return True
    r = any(isinstance(x, T) and _has_b(x, h, memo) for x in t.a)
    memo[k] = r
    return r


def simp_rec(h, K, flat):
    bk = raw("bk", h)
    ph = raw("bphi", h, 0)
    if len(flat) != 2:
        return None
    init, nxt = flat
    # conditional on a loop-invariant atom: hoist
    if nxt.op == "ite" and not has_binder(nxt.a[0], h):
        return ite(nxt.a[0], build_rec(h, K, init, nxt.a[1]), build_rec(h, K, init, nxt.a[2]))
    if nxt is ph:
        return init
    # contiguous element-wise copy == block copy
    if nxt.op == "upd" and nxt.a[0] is ph:
        o, l, v = nxt.a[1:]
        if not has_binder(l, h):
            step = sub(subst(o, {bk: add(bk, ONE)}), o)
            if step is l:
                o0 = subst(o, {bk: ZERO})
                tot = mul(l, K)
                if v.op == "sub" and not has_binder(v.a[0], h):
                    st2 = sub(subst(v.a[1], {bk: add(bk, ONE)}), v.a[1])
                    if st2 is l and v.a[2] is l:
                        return supd(init, o0, tot, ssub(v.a[0], subst(v.a[1], {bk: ZERO}), tot))
                if not has_binder(v, h):
                    if v.op == "rep":
                        return supd(init, o0, tot, raw("rep", v.a[0], tot))
    if nxt.op == "iset" and nxt.a[0] is ph:
        i, v = nxt.a[1:]
        step = sub(subst(i, {bk: add(bk, ONE)}), i)
        if step is ONE:
            i0 = subst(i, {bk: ZERO})
            if v.op == "idx" and not has_binder(v.a[0], h):
                s2 = sub(subst(v.a[1], {bk: add(bk, ONE)}), v.a[1])
                if s2 is ONE:
                    return supd(init, i0, K, ssub(v.a[0], subst(v.a[1], {bk: ZERO}), K))
            if not has_binder(v, h):
                return supd(init, i0, K, raw("rep", v, K))
            if not _has_phi(v, h):
                return supd(init, i0, K, mk_vecof(K, subst(v, {bk: add(bk, ZERO)}), h))
    # appending
    if nxt.op == "cat" and nxt.a[0] is ph:
        v = nxt.a[1]
        if v.op == "arr" and len(v.a) == 1 and not _has_phi(v, h):
            return cat(init, mk_vecof(K, v.a[0], h))
        if v.op == "sub" and not has_binder(v.a[0], h) and not has_binder(v.a[2], h):
            s2 = sub(subst(v.a[1], {bk: add(bk, ONE)}), v.a[1])
            if s2 is v.a[2]:
                return cat(init, ssub(v.a[0], subst(v.a[1], {bk: ZERO}), mul(K, v.a[2])))
    return None


def _has_phi(t, h):
    return any(x.op == "bphi" and x.a[0] == h for x in subterms(t))


_vecdepth = 0


def mk_vecof(n, elem, h):
    """Sequence of n elements; elem mentions ("bk", h)."""
    # normalise the binder height
    bk = raw("bk", h)
    inner = elem
    # eta: element k of x
    if elem.op == "idx" and not has_binder(elem.a[0], h):
        s2 = sub(subst(elem.a[1], {bk: add(bk, ONE)}), elem.a[1])
        if s2 is ONE:
            return ssub(elem.a[0], subst(elem.a[1], {bk: ZERO}), n)
    if not has_binder(elem, h):
        return raw("rep", elem, n)
    # minimal height
    global _vecdepth
    tmp = raw("kv", f"vecof!{_vecdepth}")  # substituting may build inner sequences
    _vecdepth += 1
    try:
        e2 = subst(elem, {bk: tmp})
        h2 = e2.hb + 1
        e3 = subst(e2, {tmp: raw("bk", h2)})
    finally:
        _vecdepth -= 1
    return raw("vecof", n, e3, h2)


def phis_in(t, uid, memo=None):
    if memo is None:
        memo = {}
    out = []
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if id(x) in seen or uid not in x.temps:
            continue
        seen.add(id(x))
        if x.op == "phi" and x.a[0] == uid:
            if x.a[1] not in out:
                out.append(x.a[1])
        for y in reversed(x.a):
            if isinstance(y, T):
                stack.append(y)
    return out


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)


# ------------------------------------------------------------------ substitution
def _reb_int(*a):
    r = ZERO
    for i in range(0, len(a), 2):
        m = num(a[i])
        for x in a[i + 1].a:
            m = mul(m, x)
        r = add(r, m)
    return r


def _reb_vecof(n, elem, h):
    return mk_vecof(n, elem, h) if n.op != "ite" else ite(n.a[0], _reb_vecof(n.a[1], elem, h), _reb_vecof(n.a[2], elem, h))


REBUILD = {
    "ite": lambda c, a, b: ite(c, a, b),
    "int": _reb_int,
    "ge0": lambda p: ge0(p),
    "eq": lambda a, b: eq(a, b),
    "div": lambda a, b: div(a, b),
    "rem": lambda a, b: rem(a, b),
    "min": lambda *xs: _fold(mk_min, xs),
    "max": lambda *xs: _fold(mk_max, xs),
    "f+": lambda a, b: fop("f+", a, b),
    "f*": lambda a, b: fop("f*", a, b),
    "f-": lambda a, b: fop("f-", a, b),
    "f/": lambda a, b: fop("f/", a, b),
    "flt": flt,
    "fle": fle,
    "fld": lambda x, n: fld(x, n),
    "vfld": lambda x, v, n: vfld(x, v, n),
    "len": lambda x: slen(x),
    "sub": lambda x, o, l: ssub(x, o, l),
    "upd": lambda x, o, l, v: supd(x, o, l, v),
    "idx": lambda x, i: idx(x, i),
    "iset": lambda x, i, v: iset(x, i, v),
    "cat": lambda a, b: cat(a, b),
    "resize": lambda x, n, v: resize(x, n, v),
    "bytes": lambda x, t: tobytes(x, t),
    "frombytes": lambda x, t: frombytes(x, t),
    "castseq": lambda x, s, d, st, dt: castseq(x, s, d, st, dt),
    "mapget": lambda m, k: mapget(m, k),
    "mapset": lambda m, k, v: mapset(m, k, v),
    "mapins": lambda m, k, v: mapins(m, k, v),
    "has": lambda m, k: maphas(m, k),
    "rec": lambda h, K, *f: build_rec(h, K, *f),
    "vecof": _reb_vecof,
    "with": lambda b, *f: _reb_with(b, f),
    "is": lambda x, v: lift1(lambda y: raw("is", y, v) if y.op != "adt" else (TRUE if y.a[1] == v else FALSE), x),
    "exists": lambda n, p, h: mk_exists_b(n, p, h),
    "bv": lambda x: mk_bv(x),
    "ref": lambda c, *p: mk_ref(c, list(p)),
    "fam": lambda n, h, p: raw("fam", n, h, p),
}


def mk_bv(x):
    def f(x):
        if x in (TRUE, FALSE) or x.op in BOOLOPS:
            return x
        return raw("bv", x)

    return lift1(f, x)


def mk_ref(c, path):
    return raw("ref", c, *path)


def _reb_with(b, f):
    r = b
    for i in range(0, len(f), 2):
        r = with_fld(r, f[i], f[i + 1])
    return r


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


PLAIN = {"adt", "tuple", "closure", "it", "mono", "spec", "arr", "lam", "fam"}


def _first(n, q, h):
    if n.op == "ite":
        return ite(n.a[0], _first(n.a[1], q, h), _first(n.a[2], q, h))
    return raw("first", n, q, h)


REBUILD["first"] = _first


def remake(op, na):
    """Rebuild a term of operator op.  Conditions are lifted out of the arguments, except out of
    constructors (kept lazy) and binder bodies (where they may mention the bound variable)."""
    rb = REBUILD.get(op)
    if rb is not None:
        return rb(*na)
    if op in PLAIN:
        return raw(op, *na)
    return lift(lambda *ys: raw(op, *ys), *na)


def subst(t, m):
    if not m:
        return t
    keys = set()
    free = False
    for k in m:
        if k.op in ("kv", "phi"):
            keys.add(k.a[0])
        elif k.op in ("bk", "bphi"):
            keys.add(("b", k.a[0]))
        else:
            free = True
    uids = {k for k in keys if not isinstance(k, tuple)}
    hs = [k[1] for k in keys if isinstance(k, tuple)]
    minh = min(hs) if hs else None
    memo = {}

    def go(t):
        if not free:
            hit = (uids and not uids.isdisjoint(t.temps)) or (minh is not None and t.hb >= minh)
            if not hit:
                return t
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(id(t))
        if r is not None:
            return r
        na = tuple(go(x) if isinstance(x, T) else x for x in t.a)
        if all(x is y for x, y in zip(na, t.a)):
            r = t
        else:
            r = remake(t.op, na)
        memo[id(t)] = r
        return r

    return go(t)


def mk_exists(uid, n, p):
    """exists k < n. p(k), where p mentions ("kv", uid)."""
    if p is FALSE or n is ZERO:
        return FALSE
    if raw("kv", uid) not in subterms_set(p):
        return band(bnot(eq(n, ZERO)), p)
    # distribute over invariant parts
    h = p.hb + 1
    q = subst(p, {raw("kv", uid): raw("bk", h)})
    return mk_exists_b(n, q, h)


def mk_exists_b(n, q, h):
    if q is FALSE:
        return FALSE
    if n.op == "ite":
        return ite(n.a[0], mk_exists_b(n.a[1], q, h), mk_exists_b(n.a[2], q, h))
    if n is ZERO:
        return FALSE
    if q.op == "ite" and not has_binder(q.a[0], h):
        return ite(q.a[0], mk_exists_b(n, q.a[1], h), mk_exists_b(n, q.a[2], h))
    if not has_binder(q, h):
        return band(bnot(eq(n, ZERO)), q)
    return raw("exists", n, q, h)


def subterms_set(t):
    return set(subterms(t))


# ------------------------------------------------------------------ printing
def pp(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is None:
        s = _pp(t)
        if len(s) > 6000:  # keep printing linear in the size of the (shared) term
            s = s[:3000] + "..#" + hashlib.sha1(s.encode()).hexdigest()[:12]
        t._s = s
    return t._s


def _shorty(p):
    return p.split("::")[-1] if isinstance(p, str) else str(p)


def _pp(t):
    o, a = t.op, t.a
    if o == "num":
        return str(a[0])
    if o == "int":
        out = []
        for i in range(0, len(a), 2):
            c = a[i]
            m = "*".join(pp(x) if x.op not in ("ite",) else "(" + pp(x) + ")" for x in a[i + 1].a)
            if not m:
                s = str(c)
            elif c == 1:
                s = m
            elif c == -1:
                s = "-" + m
            else:
                s = f"{c}*{m}"
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if o in ("true", "false", "dc"):
        return o
    if o == "str":
        return repr(a[0])
    if o == "unk":
        return f"⊤[{a[0]}]"
    if o == "ite":
        return f"if {pp(a[0])} {{{pp(a[1])}}} else {{{pp(a[2])}}}"
    if o == "ge0":
        d = poly(a[0])
        l = from_poly({m: c for m, c in d.items() if c > 0})
        r = from_poly({m: -c for m, c in d.items() if c < 0})
        return f"[{pp(l)}>={pp(r)}]"
    if o == "eq":
        return f"[{pp(a[0])}=={pp(a[1])}]"
    if o == "flt":
        return f"[{pp(a[0])}<{pp(a[1])}]"
    if o == "fle":
        return f"[{pp(a[0])}<={pp(a[1])}]"
    if o in ("f+", "f-", "f*", "f/"):
        return f"({pp(a[0])} {o[1]} {pp(a[1])})"
    if o == "adt":
        n = _shorty(a[0])
        v = VARIANT_NAMES.get((a[0], a[1]))
        fs = [(a[i], a[i + 1]) for i in range(2, len(a), 2)]
        nm = v if v is not None else n
        if not fs:
            return nm
        if all(x.isdigit() for x, _ in fs):
            return f"{nm}({', '.join(pp(v) for _, v in fs)})"
        return f"{nm}{{{', '.join(k + ': ' + pp(v) for k, v in fs)}}}"
    if o == "tuple":
        return "(" + ", ".join(pp(x) for x in a) + ("," if len(a) == 1 else "") + ")"
    if o == "fld":
        return f"{pp(a[0])}.{a[1]}"
    if o == "vfld":
        if a[2] == "0" or a[2] == 0:
            return f"{pp(a[0])}!"
        return f"{pp(a[0])}!{a[1]}.{a[2]}"
    if o == "is":
        return f"is{a[1]}({pp(a[0])})"
    if o == "*":
        return f"*{pp(a[0])}" if a[0].op != "param" else pp(a[0])
    if o == "param":
        return str(a[0])
    if o == "kv":
        return f"k#{a[0]}"
    if o == "bk":
        return f"k{a[0]}"
    if o == "phi":
        return f"phi#{a[0]}.{a[1]}"
    if o == "bphi":
        return f"acc{a[0]}.{a[1]}"
    if o == "sub":
        return f"{pp(a[0])}[{pp(a[1])} ;{pp(a[2])}]"
    if o == "idx":
        return f"{pp(a[0])}[{pp(a[1])}]"
    if o == "call":
        return f"{_shorty2(a[0])}({', '.join(pp(x) for x in a[1:])})"
    if o == "with":
        return f"{pp(a[0])}{{{', '.join(str(a[i]) + ':=' + pp(a[i + 1]) for i in range(1, len(a), 2))}}}"
    if o == "rec":
        fl = a[2:]
        return f"rec{a[0]}({pp(a[1])}; " + "; ".join(f"{pp(fl[i])} -> {pp(fl[i + 1])}" for i in range(0, len(fl), 2)) + ")"
    if o == "exists":
        return f"exists(k{a[2]}<{pp(a[0])}: {pp(a[1])})"
    if o == "vecof":
        return f"seq(k{a[2]}<{pp(a[0])}: {pp(a[1])})"
    if o == "const":
        return _shorty2(a[0])
    if o == "bv":
        return pp(a[0])
    return f"{o}({', '.join(pp(x) for x in a)})"


VARIANT_NAMES = {}


def _shorty2(p):
    if not isinstance(p, str):
        return pp(p)
    parts = p.split("::")
    return "::".join(parts[-2:])

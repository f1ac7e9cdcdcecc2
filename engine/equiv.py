"""Equality of summaries modulo the theory of their terms.

First the normal forms are compared.  If they differ, the terms are interpreted over random models
of their free symbols (random interpretation): a model in which the values differ is a witness that
the two summaries denote different functions."""
import functools
import math
import struct
import time
from fractions import Fraction

from . import terms as TM
from .terms import T, pp
from .model import *
from .values import *

INF = 10 ** 12
LOOPCAP = 150

_fb = {}
_E = frozenset()


def fb(t):
    """Free binders of a term."""
    r = _fb.get(id(t))
    if r is not None:
        return r[1]
    stack = [t]
    while stack:
        x = stack[-1]
        if id(x) in _fb:
            stack.pop()
            continue
        kids = [y for y in x.a if isinstance(y, T)]
        pend = [y for y in kids if id(y) not in _fb]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        g = lambda y: _fb[id(y)][1]
        o = x.op
        if o in ("bk", "bphi"):
            s = frozenset([x.a[0]])
        elif o == "lp":
            s = frozenset(["lp"])
        elif o == "rec":
            h = frozenset([x.a[0]])
            s = g(x.a[1])
            for i in range(2, len(x.a), 2):
                s = s | g(x.a[i]) | (g(x.a[i + 1]) - h)
        elif o in ("exists", "first", "fam"):
            h = frozenset([x.a[2] if o != "fam" else x.a[1]])
            body = x.a[1] if o != "fam" else x.a[2]
            s = g(x.a[0]) | (g(body) - h)
        elif o == "vecof":
            s = g(x.a[0]) | (g(x.a[1]) - frozenset([x.a[2]]))
        elif o == "lam":
            s = g(x.a[0]) - frozenset(["lp"])
        else:
            s = _E
            for y in kids:
                s = s | g(y)
        _fb[id(x)] = (x, s)  # keeps x alive: ids stay unique
    return _fb[id(t)][1]


class Err:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Eval:
    def __init__(self, model, params, deadline=None):
        self.m = model
        self.params = params
        self.memo = {}
        self.env = {}
        self.ver = {}
        self.nver = 0
        self.fuel = 4000000 if getattr(model, "long", False) else 300000
        self.deadline = deadline
        self.ucalls = set()
        self.rng = False  # a random number was drawn
        self.jit = None  # seed of a perturbation of the rounding of inexact operations

    # ------------------------------------------------ core
    def ev(self, t):
        f = fb(t)
        k = (id(t),) if not f else (id(t),) + tuple(sorted((str(h), self.ver.get(h)) for h in f))
        r = self.memo.get(k)
        if r is None:
            self.fuel -= 1
            if self.fuel < 0:
                raise Unsup("fuel")
            try:
                r = self.ev0(t)
            except Fault as e:
                self.memo[k] = Err(e)
                raise
            self.memo[k] = r
        elif isinstance(r, Err):
            raise r.e
        return r

    def bind(self, h, v):
        old = (self.env.get(h), self.ver.get(h))
        self.nver += 1
        self.env[h] = v
        self.ver[h] = self.nver
        return old

    def unbind(self, h, old):
        self.env[h], self.ver[h] = old

    def i(self, t):
        return as_int(self.ev(t))

    def ev0(self, t):
        o = t.op
        f = getattr(self, "o_" + OPN.get(o, o), None)
        if f is None:
            return self.generic(t)
        return f(t, *t.a)

    def generic(self, t):
        self.ucalls.add(t.op)
        return Obj(("op", t.op) + tuple(vkey(self.ev(x)) if isinstance(x, T) else x for x in t.a))

    # ------------------------------------------------ leaves
    def o_param(self, t, n):
        if n not in self.params:
            raise Unsup("param " + n)
        return self.params[n]

    def o_num(self, t, n):
        return n

    def o_true(self, t):
        return True

    def o_false(self, t):
        return False

    def o_str(self, t, s):
        return s

    def o_fc(self, t, s):
        return float(s)

    def o_inf(self, t):
        return INF

    def o_unk(self, t, *a):
        raise Unsup("unknown value")

    def o_dc(self, t):
        raise Fault("dc")

    def o_deref(self, t, x):
        return self.ev(x)

    def o_const(self, t, n, *r):
        s = n.split("::")[-1]
        if s in BUILTIN:
            nm, v = BUILTIN[s]
            return mk_def(nm, mk_dt(v))
        return Obj(("const", n) + tuple(r))

    def o_lp(self, t, i):
        v = self.env.get("lp")
        if v is None:
            raise Unsup("free lambda parameter")
        return v[i] if i < len(v) else Obj(("lp", i))

    def o_bk(self, t, h):
        v = self.env.get(h)
        if v is None:
            raise Unsup("free binder")
        return v[0]

    def o_bphi(self, t, h, i):
        v = self.env.get(h)
        if v is None or v[1] is None:
            raise Unsup("free binder")
        x = v[1][i]
        if isinstance(x, Err):
            raise x.e
        return x

    # ------------------------------------------------ arithmetic
    def o_int(self, t, *a):
        s = 0
        for i in range(0, len(a), 2):
            p = a[i]
            for x in a[i + 1].a:
                p *= self.i(x)
            s += p
        return s

    def o_mono(self, t, *a):
        p = 1
        for x in a:
            p *= self.i(x)
        return p

    def o_div(self, t, a, b):
        x, y = self.i(a), self.i(b)
        if y == 0:
            raise Fault("division by zero")
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q

    def o_rem(self, t, a, b):
        x, y = self.i(a), self.i(b)
        if y == 0:
            raise Fault("division by zero")
        r = abs(x) % abs(y)
        return -r if x < 0 else r

    def o_min(self, t, *a):
        return min(self.i(x) for x in a)

    def o_max(self, t, *a):
        return max(self.i(x) for x in a)

    def o_bit_and(self, t, a, b):
        return self.i(a) & self.i(b)

    def o_bit_or(self, t, a, b):
        return self.i(a) | self.i(b)

    def o_bitfn(self, t, n, w, *xs):
        w = self.i(w)
        x = self.i(xs[0]) % (1 << w)
        b = format(x, f"0{w}b")
        if n == "reverse_bits":
            return int(b[::-1], 2)
        if n == "swap_bytes":
            return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
        if n in ("rotate_left", "rotate_right"):
            k = self.i(xs[1]) % w
            k = k if n == "rotate_left" else (w - k) % w
            return int(b[k:] + b[:k], 2)
        if n == "count_ones":
            return b.count("1")
        if n == "count_zeros":
            return b.count("0")
        if n == "leading_zeros":
            return w - x.bit_length()
        if n == "trailing_zeros":
            return w if x == 0 else (x & -x).bit_length() - 1
        if n == "isqrt":
            return math.isqrt(x)
        if n == "ilog2":
            if x == 0:
                raise Fault("ilog2")
            return x.bit_length() - 1
        if n == "next_power_of_two":
            return 1 if x == 0 else 1 << (x - 1).bit_length()
        raise Unsup(n)

    def o_bit_xor(self, t, a, b):
        return self.i(a) ^ self.i(b)

    def o_bit_shl(self, t, a, b):
        n = self.i(b)
        if n > 128 or n < 0:
            raise Fault("shift")
        return self.i(a) << n

    def o_bit_shr(self, t, a, b):
        n = self.i(b)
        if n > 128 or n < 0:
            raise Fault("shift")
        return self.i(a) >> n

    def o_cast(self, t, x, ty):
        v = self.ev(x)
        if isinstance(v, float):
            raise Unsup("cast float")
        if isinstance(v, str):
            return ord(v[0]) if v else 0
        m = self.m.shrink.get(ty)
        if m is not None and as_int(v) >= 0:
            return as_int(v) % m
        return wrap_int(as_int(v), ty)

    def o_conv(self, t, x, f, g):
        v = self.ev(x)
        if g in ("f32", "f64"):
            r = as_float(v) if f in ("f32", "f64") else float(as_int(v))
            if g == "f32":
                try:
                    r = struct.unpack("<f", struct.pack("<f", r))[0]
                except OverflowError:
                    r = math.copysign(math.inf, r)
            return r
        r = as_float(v)
        if r != r:
            return 0
        b = BITS.get(g)
        if b is None:
            raise Unsup("conv " + g)
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if g[0] == "i" else (0, (1 << b) - 1)
        return lo if r <= lo else hi if r >= hi else int(r)

    def farg(self, t):
        return as_float(self.ev(t))

    def rounding(self, op, r, *xs):
        """The result, or (when rounding is perturbed) a neighbour of an inexact one.  The same
        operation on the same operands is perturbed the same way."""
        if self.jit is None or r == 0 or r != r or math.isinf(r):
            return r
        if op in "+-*/":
            try:
                p, q = Fraction(xs[0]), Fraction(xs[1])
            except (OverflowError, ValueError):
                return r
            e = p + q if op == "+" else p - q if op == "-" else p * q if op == "*" else p / q
            if e == Fraction(r):
                return r
            if op in "+*":
                xs = sorted(xs)
        elif op == "sqrt" and Fraction(r) * Fraction(r) == Fraction(xs[0]) or r == round(r):
            return r
        return r * (1 + (hsh("jit", self.jit, op, *[repr(x) for x in xs]) % 5 - 2) * 2.0 ** -51)

    def o_fadd(self, t, a, b):
        x, y = self.farg(a), self.farg(b)
        return self.rounding("+", x + y, x, y)

    def o_fsub(self, t, a, b):
        x, y = self.farg(a), self.farg(b)
        return self.rounding("-", x - y, x, y)

    def o_fmul(self, t, a, b):
        x, y = self.farg(a), self.farg(b)
        return self.rounding("*", x * y, x, y)

    def o_fdiv(self, t, a, b):
        x, y = self.farg(a), self.farg(b)
        if y == 0:
            if x == 0 or x != x:
                return math.nan
            return math.copysign(math.inf, x) * math.copysign(1, y)
        return self.rounding("/", x / y, x, y)

    def o_fneg(self, t, a):
        return -self.farg(a)

    def o_flt(self, t, a, b):
        x, y = self.farg(a), self.farg(b)
        return x < y

    def o_fle(self, t, a, b):
        x, y = self.farg(a), self.farg(b)
        return x <= y

    # ------------------------------------------------ booleans
    def o_ite(self, t, c, a, b):
        # iterative along the diagram
        while True:
            try:
                v = as_bool(self.ev(c))
            except Fault:
                # an undecided test is harmless if both alternatives agree
                x, y = self.ev(a), self.ev(b)
                if x is y or veq(x, y):
                    return x
                raise
            n = a if v else b
            if n.op == "ite" and not (id(n),) in self.memo:
                c, a, b = n.a
                continue
            return self.ev(n)

    def o_ge0(self, t, p):
        return self.i(p) >= 0

    def o_eq(self, t, a, b):
        return self.equal(self.ev(a), self.ev(b))

    def equal(self, x, y):
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Obj) and not isinstance(q, Obj):
                if isinstance(q, bool):
                    return as_bool(p) == q
                if isinstance(q, int):
                    return as_int(p) == q
                if isinstance(q, float):
                    return as_float(p) == q
                if isinstance(q, Seq):
                    return veq(as_seq(p), q)
                if isinstance(q, Adt):
                    if "datatype" in q.path.lower():
                        return veq(self.m.as_dt(p), q)
                    if "attributes" in q.f and "memory_layout" in q.f:
                        return veq(self.m.as_layout(p), q)
                return hsh("eq", vkey(p), vkey(q)) % 3 == 0
        if isinstance(x, float) and isinstance(y, float):
            return x == y
        if isinstance(x, float) != isinstance(y, float) and isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return float(x) == float(y)
        return veq(x, y)

    def o_is(self, t, x, v):
        y = self.ev(x)
        return self.variant(y) == v

    def variant(self, y):
        if isinstance(y, Adt):
            return y.variant
        if isinstance(y, Obj):
            return hsh("variant", y.key) % 2
        if isinstance(y, bool):
            return int(y)
        raise Unsup("variant of " + type(y).__name__)

    def o_bv(self, t, x):
        return as_bool(self.ev(x))

    def o_ordlt(self, t, a, b):
        return self.cmp(self.ev(a), self.ev(b)) < 0

    def o_ordle(self, t, a, b):
        return self.cmp(self.ev(a), self.ev(b)) <= 0

    def cmp(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            for p, q in zip(x, y):
                c = self.cmp(p, q)
                if c:
                    return c
            return 0
        if isinstance(x, Seq) and isinstance(y, Seq):
            for p, q in zip(x.x, y.x):
                c = self.cmp(p, q)
                if c:
                    return c
            return (len(x.x) > len(y.x)) - (len(x.x) < len(y.x))
        if isinstance(x, (int, float, str)) and isinstance(y, type(x)):
            return (x > y) - (x < y)
        if isinstance(x, float) or isinstance(y, float):
            x, y = as_float(x), as_float(y)
            return (x > y) - (x < y)
        if isinstance(x, int) or isinstance(y, int):
            x, y = as_int(x), as_int(y)
            return (x > y) - (x < y)
        a, b = hsh("ord", vkey(x)), hsh("ord", vkey(y))
        return (a > b) - (a < b)

    def o_pcmp(self, t, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, float) and isinstance(y, float) and (x != x or y != y):
            return NONE
        return some(Adt(ORD, 1 + self.cmp(x, y), {}))

    def o_cmp(self, t, a, b):
        return Adt(ORD, 1 + self.cmp(self.ev(a), self.ev(b)), {})

    # ------------------------------------------------ structures
    def o_adt(self, t, path, variant, *f):
        if path == "std::borrow::Cow" and len(f) == 2:
            return self.ev(f[1])  # owned or borrowed: the same text
        return Adt(path, variant, {f[i]: self.lz(f[i + 1]) for i in range(0, len(f), 2)})

    def lz(self, t):
        return self.ev(t)

    def o_tuple(self, t, *a):
        return tuple(self.ev(x) for x in a)

    def o_closure(self, t, k, *a):
        return Adt("closure", 0, {str(i): self.ev(x) for i, x in enumerate(a)})

    def o_arr(self, t, *a):
        return Seq(self.ev(x) for x in a)

    def o_with(self, t, b, *f):
        x = self.ev(b)
        if isinstance(x, Obj):
            fs = {f[i]: self.ev(f[i + 1]) for i in range(0, len(f), 2)}
            return Obj(("with", x.key) + tuple(sorted((k, vkey(v)) for k, v in fs.items())))
        if isinstance(x, tuple):
            l = list(x)
            for i in range(0, len(f), 2):
                l[int(f[i])] = self.ev(f[i + 1])
            return tuple(l)
        if isinstance(x, Seq):
            l = list(x.x)
            for i in range(0, len(f), 2):
                if f[i] in ("coords", "data", "0"):
                    return self.ev(f[i + 1])
                raise Unsup("with seq")
            return Seq(l)
        if not isinstance(x, Adt):
            raise Unsup("with " + type(x).__name__)
        fs = dict(x.f)
        for i in range(0, len(f), 2):
            fs[f[i]] = self.ev(f[i + 1])
        return Adt(x.path, x.variant, fs)

    def o_fld(self, t, x, n):
        return self.fld(self.ev(x), n)

    def fld(self, v, n):
        if isinstance(v, Adt):
            if n in v.f:
                return v.f[n]
            if n in ("as_slice", "as_ref", "as_mut", "0"):
                return v.f.get("as_slice", Obj(("fld", vkey(v), n)))
            return Obj(("fld", vkey(v), n))
        if isinstance(v, tuple):
            if n.isdigit() and int(n) < len(v):
                return v[int(n)]
            raise Unsup("tuple field")
        if isinstance(v, Seq):
            if n in ("coords", "data", "0", "as_slice", "as_ref", "as_mut"):
                return v
            raise Unsup("seq field " + n)
        if isinstance(v, Obj):
            return Obj(("fld", v.key, n))
        if isinstance(v, Buf):
            return Obj(("fld", ("buf", v.key), n))
        raise Unsup("field of " + type(v).__name__)

    def o_vfld(self, t, x, v, n):
        y = self.ev(x)
        if self.variant(y) != v:
            raise Fault("variant")
        if isinstance(y, Adt):
            return self.fld(y, n)
        return Obj(("vfld", y.key, v, n))

    # ------------------------------------------------ sequences
    def seq(self, t):
        return as_seq(self.ev(t))

    def o_len(self, t, x):
        v = self.ev(x)
        if isinstance(v, Map):
            return len(v.d)
        if isinstance(v, Adt) and "as_slice" not in v.f:
            raise Unsup("len of adt")
        return len(as_seq(v).x)

    def o_sub(self, t, x, o, l):
        s, o, l = self.seq(x), self.i(o), self.i(l)
        if o < 0 or l < 0 or o + l > len(s.x):
            raise Fault("range")
        return Seq(s.x[o:o + l])

    def o_idx(self, t, x, i):
        v = self.ev(x)
        if i.op == "rc" :
            r, c = self.i(i.a[0]), self.i(i.a[1])
            if isinstance(v, Obj):
                return Obj(("rc", v.key, r, c))
            raise Unsup("rc")
        if isinstance(v, Adt) and "as_slice" not in v.f or isinstance(v, Map):
            raise Unsup("index of " + type(v).__name__)
        s, i = as_seq(v), self.i(i)
        if i < 0:
            raise Fault("index")
        if isinstance(v, Obj) and i >= len(s.x) and i < 64:
            return Obj(("i", v.key, i))
        if i >= len(s.x):
            raise Fault("index")
        return s.x[i]

    def o_iset(self, t, x, i, v):
        y = self.ev(x)
        if i.op == "rc":
            return Obj(("rcset", vkey(y), self.i(i.a[0]), self.i(i.a[1]), vkey(self.ev(v))))
        s, i = as_seq(y), self.i(i)
        l = list(s.x)
        if isinstance(y, Obj) and i >= len(l):
            while len(l) <= i < 16:
                l.append(Obj(("i", y.key, len(l))))
        if i < 0 or i >= len(l):
            raise Fault("index")
        l[i] = self.ev(v)
        return Seq(l)

    def o_upd(self, t, x, o, l, v):
        s, o, l = self.seq(x), self.i(o), self.i(l)
        if o < 0 or l < 0 or o + l > len(s.x):
            raise Fault("range")
        w = self.ev(v)
        w = Seq(as_bytes(w, l)) if isinstance(w, Obj) and s.x and isinstance(s.x[0], int) else as_seq(w, l)
        if len(w.x) != l:
            raise Fault("length")
        return Seq(s.x[:o] + w.x + s.x[o + l:])

    def o_cat(self, t, a, b):
        return Seq(self.seq(a).x + self.seq(b).x)

    def cnt(self, n):
        if n < 0:
            raise Fault("negative length")
        if n > (100000 if self.m.long else 5000):
            raise Unsup("huge length")
        return n

    def o_rep(self, t, v, n):
        return Seq((self.ev(v),) * self.cnt(self.i(n)))

    def o_resize(self, t, x, n, v):
        s, n = self.seq(x), self.cnt(self.i(n))
        if n <= len(s.x):
            return Seq(s.x[:n])
        return Seq(s.x + (self.ev(v),) * (n - len(s.x)))

    def o_vecof(self, t, n, body, h):
        out = []
        for k in range(self.cnt(self.i(n))):
            old = self.bind(h, (k, None))
            try:
                out.append(self.ev(body))
            finally:
                self.unbind(h, old)
        return Seq(out)

    def o_reversed(self, t, x):
        return Seq(reversed(self.seq(x).x))

    def o_sorted(self, t, x, f):
        s = list(self.seq(x).x)
        lam = self.ev(f)
        if isinstance(lam, Obj):
            # an unknown total preorder
            return Seq(sorted(s, key=lambda y: hsh("sort", lam.key, vkey(y)) % 5))
        if not isinstance(lam, Lam):
            raise Unsup("sort function")
        if f.op == "lam" and f.a[0].op == "key":
            ks = [lam.f([y]) for y in s]
            o = sorted(range(len(s)), key=functools.cmp_to_key(lambda a, b: self.cmp(ks[a], ks[b])))
        else:
            def c(a, b):
                r = lam.f([s[a], s[b]])
                if not isinstance(r, Adt):
                    raise Unsup("ordering")
                return r.variant - 1
            o = sorted(range(len(s)), key=functools.cmp_to_key(c))
        return Seq(s[i] for i in o)

    def o_key(self, t, x):
        return self.ev(x)

    def o_bytes(self, t, x, ty):
        return self.m.tobytes(self.ev(x), ty)

    def o_frombytes(self, t, x, ty):
        return self.m.frombytes(self.ev(x), ty)

    def o_castseq(self, t, x, s, d, st, dt):
        v, s, d = self.ev(x), self.i(s), self.i(d)
        if st == "u8":
            b = as_bytes(v)
        else:
            b = b"".join(as_bytes(self.m.tobytes(y, st)) for y in as_seq(v).x)
        if dt == "u8":
            return Seq(b)
        if d <= 0 or len(b) % d:
            raise Fault("cast length")
        return Seq(self.m.frombytes(Seq(b[i:i + d]), dt) for i in range(0, len(b), d))

    def o_size_of(self, t, s):
        return self.m.size_of(s)

    def o_align_of(self, t, s):
        k = parse_ty(s)
        if k[0] in ("prim", "mat"):
            return psize(k[1])
        if s in self.m.aligns:
            return self.m.aligns[s]
        return [1, 2, 4, 8][hsh("al", self.m.seed, s) % 4]

    def o_default(self, t, s):
        return self.m.default(s)

    def o_zeroed(self, t, s):
        return self.m.frombytes(Seq(bytes(self.m.size_of(s))), s)

    def o_fnname(self, t, s):
        return Obj(("fn", s))

    def o_static(self, t, s):
        return Obj(("static", s))

    def o_anyerr(self, t):
        return Obj(("anyerr",))

    def o_lam(self, t, b):
        env, ver = dict(self.env), dict(self.ver)

        def f(args):
            e0, v0 = self.env, self.ver
            self.env, self.ver = dict(env), dict(ver)
            try:
                self.bind("lp", list(args))
                return self.ev(b)
            finally:
                self.env, self.ver = e0, v0
        return Lam(f)

    # ------------------------------------------------ maps
    def o_mapnew(self, t):
        return Map({})

    def o_mapget(self, t, m, k):
        m, k = as_map(self.ev(m)), self.ev(k)
        q = vkey(k)
        if q in m.d:
            return m.d[q][1]
        if m.base is not None:
            if hsh("has", m.base.key, q) % 4 == 0:
                raise Fault("map key")
            return Obj(("get", m.base.key, q))
        raise Fault("map key")

    def o_mapset(self, t, m, k, v):
        m, k = as_map(self.ev(m)), self.ev(k)
        q = vkey(k)
        if q not in m.d and m.base is None:
            raise Fault("map key")
        d = dict(m.d)
        d[q] = (k, self.ev(v))
        return Map(d, m.base)

    def o_mapins(self, t, m, k, v):
        m, k = as_map(self.ev(m)), self.ev(k)
        d = dict(m.d)
        d[vkey(k)] = (k, self.ev(v))
        return Map(d, m.base)

    def o_has(self, t, m, k):
        m, q = as_map(self.ev(m)), vkey(self.ev(k))
        if q in m.d:
            return True
        return m.base is not None and hsh("has", m.base.key, q) % 4 != 0

    def o_maplen(self, t, m):
        m = as_map(self.ev(m))
        return len(m.d) + (hsh("maplen", m.base.key) % 3 if m.base is not None else 0)

    def o_mapkey(self, t, m, i):
        m, i = as_map(self.ev(m)), self.i(i)
        ks = sorted(m.d)if False else list(m.d)
        if 0 <= i < len(ks):
            return m.d[ks[i]][0]
        if m.base is not None:
            return Obj(("mapkey", m.base.key, i - len(ks)))
        raise Fault("map key index")

    # ------------------------------------------------ binders
    def steps(self, t, stop):
        """Run a recurrence.  Yields through: returns (k, state) at the end or at the first k where
        component 0 (the stop condition) holds."""
        h, K = t.a[0], self.i(t.a[1])
        comps = [(t.a[i], t.a[i + 1]) for i in range(2, len(t.a), 2)]
        st = []
        for ini, _ in comps:
            try:
                st.append(self.ev(ini))
            except Fault as e:
                st.append(Err(e))
        k = 0
        while k < K:
            if k > (9000 if self.m.long else LOOPCAP):
                raise Unsup("long loop")
            old = self.bind(h, (k, st))
            try:
                nx = []
                for j, (_, n) in enumerate(comps):
                    try:
                        nx.append(self.ev(n))
                    except Fault as e:
                        nx.append(Err(e))
                    if stop and j == 0:
                        if isinstance(nx[0], Err):
                            raise nx[0].e
                        if as_bool(nx[0]):
                            return k, st, True
            finally:
                self.unbind(h, old)
            st = nx
            k += 1
        return k, st, False

    def o_rec(self, t, *a):
        _, st, _ = self.steps(t, False)
        if isinstance(st[0], Err):
            raise st[0].e
        return st[0]

    def o_existsr(self, t, r):
        if r.op == "ite":
            return self.o_existsr(t, r.a[1] if as_bool(self.ev(r.a[0])) else r.a[2])
        if r.op != "rec":
            return as_bool(self.ev(r))
        return self.steps(r, True)[2]

    def o_firstr(self, t, r):
        if r.op == "ite":
            return self.o_firstr(t, r.a[1] if as_bool(self.ev(r.a[0])) else r.a[2])
        if r.op != "rec":
            raise Unsup("firstr")
        return self.steps(r, True)[0]

    def _scan(self, n, q, h):
        n = self.i(n)
        for k in range(n):
            if k > (9000 if self.m.long else LOOPCAP):
                raise Unsup("long loop")
            old = self.bind(h, (k, None))
            try:
                if as_bool(self.ev(q)):
                    return k, True
            finally:
                self.unbind(h, old)
        return max(n, 0), False

    def o_exists(self, t, n, q, h):
        return self._scan(n, q, h)[1]

    def o_first(self, t, n, q, h):
        return self._scan(n, q, h)[0]

    # ------------------------------------------------ iterators as values
    def o_it(self, t, s, pos, *r):
        x = self.items(s)
        if x is None:
            return self.generic(t)
        p = self.i(pos)
        return Adt("iterator", 0, {"0": Seq(x[p:])})

    def o_spec(self, t, *a):
        x = self.items(t)
        if x is None:
            return self.generic(t)
        return Adt("iterator", 0, {"0": Seq(x)})

    def items(self, s):
        if s.op != "spec":
            return None
        o, a = s.a[0], s.a[1:]
        if o == "range":
            x, y = self.i(a[0]), self.i(a[1])
            self.cnt(max(0, y - x))
            return list(range(x, y))
        if o == "slice":
            return list(self.seq(a[0]).x)
        if o in ("owned", "gen"):
            return list(self.seq(a[0]).x)
        if o in ("cloned", "rev", "take", "skip", "enum", "map", "filter"):
            x = self.items(a[0])
            if x is None:
                return None
            if o == "cloned":
                return x
            if o == "rev":
                return x[::-1]
            if o == "take":
                return x[:self.i(a[1])]
            if o == "skip":
                return x[self.i(a[1]):]
            if o == "enum":
                return [(i, y) for i, y in enumerate(x)]
            f = self.ev(a[1])
            if not isinstance(f, Lam):
                return None
            if o == "map":
                return [f.f([y]) for y in x]
            return [y for y in x if as_bool(f.f([y]))]
        return None

    # ------------------------------------------------ calls
    def o_out(self, t, j, c):
        return self.call(c)[1](j)

    def o_call(self, t, *a):
        return self.call(t)[0]

    def call(self, t):
        k = ("call", id(t)) + tuple(sorted((str(h), self.ver.get(h)) for h in fb(t)))
        r = self.memo.get(k)
        if r is None:
            try:
                r = self.call0(t)
            except Fault as e:
                self.memo[k] = Err(e)
                raise
            self.memo[k] = r
        if isinstance(r, Err):
            raise r.e
        return r

    def call0(self, t):
        if t.op != "call":
            raise Unsup("out of " + t.op)
        name = t.a[0]
        args = [self.ev(x) for x in t.a[1:]] if isinstance(name, str) else [self.ev(x) for x in t.a]
        if not isinstance(name, str):
            name = "apply"
        if name == "apply" and isinstance(args[0], Lam):
            return args[0].f(args[1:]), lambda j: args[j]
        parts = name.split("::")
        f = FULL.get(name) or CALLS.get("::".join(parts[-2:])) or (CALLS.get(parts[-1]) if len(parts) < 2 or parts[0] in ("std", "nalgebra", "core") else None)
        if f is not None:
            r = f(self, *args)
            if r is not NotImplemented:
                if isinstance(r, Outs):
                    return r.ret, lambda j: r.o[j] if j in r.o else args[j]
                return r, lambda j: args[j]
        self.ucalls.add(name)
        key = ("call", name) + tuple(vkey(x) for x in args)
        return Obj(key), lambda j: Obj(("out", j, key))


class Outs:
    def __init__(self, ret, **o):
        self.ret = ret
        self.o = {int(k[1:]): v for k, v in o.items()}


OPN = {"*": "deref", "f+": "fadd", "f-": "fsub", "f*": "fmul", "f/": "fdiv", "ord<": "ordlt", "ord<=": "ordle"}

CALLS = {}
FULL = {}


def call(*names):
    def d(f):
        for n in names:
            CALLS[n] = f
        return f
    return d


# ---------------------------------------------------------------- layouts
def lk(E, l, d):
    for m in E.m.as_layout(l).f["attributes"].x:
        if veq(E.fld(m, "attribute_definition"), d):
            return m
    return None


def lkn(E, l, n):
    for i, m in enumerate(E.m.as_layout(l).f["attributes"].x):
        if E.equal(E.fld(E.fld(m, "attribute_definition"), "name"), n):
            return i, m
    return None, None


@call("PointLayout::get_attribute")
def _(E, l, d):
    m = lk(E, l, d)
    return NONE if m is None else some(m)


@call("PointLayout::has_attribute")
def _(E, l, d):
    return lk(E, l, d) is not None


@call("PointLayout::get_attribute_by_name")
def _(E, l, n):
    m = lkn(E, l, n)[1]
    return NONE if m is None else some(m)


@call("PointLayout::has_attribute_with_name")
def _(E, l, n):
    return lkn(E, l, n)[1] is not None


@call("PointLayout::index_of")
def _(E, l, d):
    for i, m in enumerate(E.m.as_layout(l).f["attributes"].x):
        if veq(E.fld(m, "attribute_definition"), d):
            return some(i)
    return NONE


@call("PointLayout::size_of_point_entry")
def _(E, l):
    return as_int(E.fld(E.fld(E.m.as_layout(l), "memory_layout"), "size"))


@call("PointAttributeDataType::size")
def _(E, d):
    return dt_size(E.m.as_dt(d))


@call("PointAttributeDataType::min_alignment")
def _(E, d):
    return dt_align(E.m.as_dt(d))


@call("PointType::layout")
def _(E, *a):
    return E.m.main


@call("PrimitiveType::data_type")
def _(E, *a):
    return E.m.attr.f["attribute_definition"].f["datatype"]


@call("Layout::from_size_align")
def _(E, s, a):
    s, a = as_int(s), as_int(a)
    if a <= 0 or a & (a - 1) or s > (1 << 63) - a:
        return Adt(RES, 1, {"0": Obj(("layouterr",))})
    return Adt(RES, 0, {"0": mk_std_layout(s, a)})


@call("Layout::size")
def _(E, l):
    return as_int(E.fld(l, "size"))


@call("Layout::align")
def _(E, l):
    return as_int(E.fld(l, "align"))


# ---------------------------------------------------------------- buffers
def bsize(b):
    return as_int(b.layout.f["memory_layout"].f["size"])


def rng(E, r):
    s, e = as_int(E.fld(r, "start")), as_int(E.fld(r, "end"))
    return s, e


def chk(c, why="panic in callee"):
    if not c:
        raise Fault(why)


@call("BorrowedBuffer::len")
def _(E, b):
    return len(E.m.as_buf(b).rows)


@call("BorrowedBuffer::is_empty")
def _(E, b):
    return len(E.m.as_buf(b).rows) == 0


@call("BorrowedBuffer::point_layout")
def _(E, b):
    return E.m.as_buf(b).layout


def out_len(x, n):
    if isinstance(x, Seq):
        return len(x.x) == n
    return True


@call("BorrowedBuffer::get_point")
def _(E, b, i, o):
    b, i = E.m.as_buf(b), as_int(i)
    chk(0 <= i < len(b.rows) and out_len(o, bsize(b)))
    return Outs((), _2=Seq(b.rows[i]))


@call("BorrowedBuffer::get_point_range")
def _(E, b, r, o):
    b = E.m.as_buf(b)
    s, e = rng(E, r)
    n = max(0, e - s)
    chk(s <= e <= len(b.rows) and out_len(o, n * bsize(b)))
    return Outs((), _2=Seq(b"".join(b.rows[s:e])))


@call("BorrowedBuffer::get_attribute")
def _(E, b, a, i, o):
    b, i = E.m.as_buf(b), as_int(i)
    m = lk(E, b.layout, a)
    chk(m is not None and 0 <= i < len(b.rows))
    x, n = m.f["offset"], m.f["size"]
    chk(out_len(o, n))
    return Outs((), _3=Seq(b.rows[i][x:x + n]))


@call("BorrowedBuffer::get_attribute_unchecked")
def _(E, b, m, i, o):
    b, i = E.m.as_buf(b), as_int(i)
    chk(0 <= i < len(b.rows))
    x, n = as_int(E.fld(m, "offset")), as_int(E.fld(m, "size"))
    chk(x + n <= bsize(b) and out_len(o, n))
    return Outs((), _3=Seq(b.rows[i][x:x + n]))


@call("BorrowedBuffer::get_attribute_range")
def _(E, b, a, r, o):
    b = E.m.as_buf(b)
    s, e = rng(E, r)
    m = lk(E, b.layout, a)
    chk(m is not None and s <= e <= len(b.rows))
    x, n = m.f["offset"], m.f["size"]
    return Outs((), _3=Seq(b"".join(q[x:x + n] for q in b.rows[s:e])))


@call("InterleavedBuffer::get_point_ref", "InterleavedBufferMut::get_point_mut")
def _(E, b, i):
    b, i = E.m.as_buf(b), as_int(i)
    chk(0 <= i < len(b.rows))
    return Seq(b.rows[i])


@call("InterleavedBuffer::get_point_range_ref", "InterleavedBufferMut::get_point_range_mut")
def _(E, b, r):
    b = E.m.as_buf(b)
    s, e = rng(E, r)
    chk(s <= e <= len(b.rows))
    return Seq(b"".join(b.rows[s:e]))


@call("ColumnarBuffer::get_attribute_ref", "ColumnarBufferMut::get_attribute_mut")
def _(E, b, a, i):
    b, i = E.m.as_buf(b), as_int(i)
    m = lk(E, b.layout, a)
    chk(m is not None and 0 <= i < len(b.rows))
    x, n = m.f["offset"], m.f["size"]
    return Seq(b.rows[i][x:x + n])


@call("ColumnarBuffer::get_attribute_range_ref", "ColumnarBufferMut::get_attribute_range_mut")
def _(E, b, a, r):
    b = E.m.as_buf(b)
    s, e = rng(E, r)
    m = lk(E, b.layout, a)
    chk(m is not None and s <= e <= len(b.rows))
    x, n = m.f["offset"], m.f["size"]
    return Seq(b"".join(q[x:x + n] for q in b.rows[s:e]))


def with_rows(b, rows):
    return Buf(b.key, b.layout, tuple(rows))


def put_rows(b, s, data):
    z = bsize(b)
    rows = list(b.rows)
    if z == 0:
        return b
    chk(len(data) % z == 0 and s + len(data) // z <= len(rows))
    for j in range(len(data) // z):
        rows[s + j] = data[j * z:(j + 1) * z]
    return with_rows(b, rows)


def put_attr(b, m, s, data):
    x, n = m.f["offset"], m.f["size"]
    if n == 0:
        return b
    rows = list(b.rows)
    chk(len(data) % n == 0 and s + len(data) // n <= len(rows))
    for j in range(len(data) // n):
        q = rows[s + j]
        rows[s + j] = q[:x] + data[j * n:(j + 1) * n] + q[x + n:]
    return with_rows(b, rows)


@call("BorrowedMutBuffer::set_point")
def _(E, b, i, d):
    b, i = E.m.as_buf(b), as_int(i)
    d = as_bytes(d, bsize(b))
    chk(0 <= i < len(b.rows) and len(d) == bsize(b))
    return Outs((), _0=put_rows(b, i, d))


@call("BorrowedMutBuffer::set_point_range")
def _(E, b, r, d):
    b = E.m.as_buf(b)
    s, e = rng(E, r)
    chk(s <= e <= len(b.rows))
    d = as_bytes(d, (e - s) * bsize(b))
    chk(len(d) == (e - s) * bsize(b))
    return Outs((), _0=put_rows(b, s, d))


@call("BorrowedMutBuffer::set_attribute")
def _(E, b, a, i, d):
    b, i = E.m.as_buf(b), as_int(i)
    m = lk(E, b.layout, a)
    chk(m is not None and 0 <= i < len(b.rows))
    d = as_bytes(d, m.f["size"])
    chk(len(d) == m.f["size"])
    return Outs((), _0=put_attr(b, m, i, d))


@call("BorrowedMutBuffer::set_attribute_range")
def _(E, b, a, r, d):
    b = E.m.as_buf(b)
    s, e = rng(E, r)
    m = lk(E, b.layout, a)
    chk(m is not None and s <= e <= len(b.rows))
    d = as_bytes(d, (e - s) * m.f["size"])
    chk(len(d) == (e - s) * m.f["size"])
    return Outs((), _0=put_attr(b, m, s, d))


@call("BorrowedMutBuffer::swap")
def _(E, b, i, j):
    b, i, j = E.m.as_buf(b), as_int(i), as_int(j)
    chk(0 <= i < len(b.rows) and 0 <= j < len(b.rows))
    r = list(b.rows)
    r[i], r[j] = r[j], r[i]
    return Outs((), _0=with_rows(b, r))


@call("OwningBuffer::push_points")
def _(E, b, d):
    b, d = E.m.as_buf(b), as_bytes(d)
    z = bsize(b)
    if z == 0:
        chk(not d)
        return Outs((), _0=b)
    chk(len(d) % z == 0)
    return Outs((), _0=with_rows(b, b.rows + tuple(d[i:i + z] for i in range(0, len(d), z))))


@call("OwningBuffer::resize")
def _(E, b, n):
    b, n = E.m.as_buf(b), E.cnt(as_int(n))
    r = list(b.rows[:n])
    while len(r) < n:
        r.append(bytes(bsize(b)))
    return Outs((), _0=with_rows(b, r))


@call("OwningBuffer::clear")
def _(E, b):
    return Outs((), _0=with_rows(E.m.as_buf(b), ()))


@call("MakeBufferFromLayout::new_from_layout")
def _(E, l):
    return Buf(("new",), E.m.as_layout(l), ())


@call("BorrowedBuffer::as_interleaved", "BorrowedMutBuffer::as_interleaved_mut")
def _(E, b):
    b = E.m.as_buf(b)
    return some(b) if hsh("il", E.m.seed, b.key) % 2 else NONE


@call("BorrowedBuffer::as_columnar", "BorrowedMutBuffer::as_columnar_mut")
def _(E, b):
    b = E.m.as_buf(b)
    # several kinds of buffers exist; none is both
    k = hsh("il", E.m.seed, b.key)
    return some(b) if k % 2 == 0 and k // 2 % 4 else NONE


# ---------------------------------------------------------------- std and nalgebra
@call("items")
def _(E, x):
    return as_seq(x if not isinstance(x, Adt) or x.path != "iterator" else x.f["0"])


@call("size_hint")
def _(E, s):
    n = len(as_seq(s).x)
    h = hsh("hint", E.m.seed)
    if h % 3 == 0:
        return (n, some(n))
    if h % 3 == 1:
        return (0, NONE)
    return (max(0, n - h // 3 % 3), some(n + h // 9 % 3))


def fmath(name, f, k=1):
    @call("<impl f64>::" + name, "<impl f32>::" + name)
    def _(E, *a):
        try:
            xs = [as_float(x) for x in a[:k]]
            return E.rounding(name, f(*xs), *xs)
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan


fmath("sqrt", lambda x: math.sqrt(x) if x >= 0 else math.nan)
fmath("abs", abs)
fmath("sin", math.sin)
fmath("cos", math.cos)
fmath("tan", math.tan)
fmath("acos", math.acos)
fmath("atan2", math.atan2, 2)
fmath("floor", lambda x: float(math.floor(x)))
fmath("ceil", lambda x: float(math.ceil(x)))
fmath("round", lambda x: math.copysign(math.floor(abs(x) + 0.5), x))
fmath("powf", math.pow, 2)
fmath("min", lambda a, b: b if a != a else a if b != b else min(a, b), 2)
fmath("max", lambda a, b: b if a != a else a if b != b else max(a, b), 2)
fmath("is_nan", lambda x: x != x)
fmath("is_finite", math.isfinite)
fmath("is_infinite", math.isinf)


fmath("trunc", lambda x: float(math.trunc(x)))
fmath("fract", lambda x: x - math.trunc(x))
fmath("hypot", math.hypot, 2)
fmath("mul_add", lambda a, b, c: a * b + c, 3)
fmath("copysign", math.copysign, 2)
fmath("signum", lambda x: x if x != x else math.copysign(1.0, x))
fmath("rem_euclid", lambda a, b: math.fmod(a, b) + (abs(b) if math.fmod(a, b) < 0 else 0.0), 2)
fmath("is_sign_negative", lambda x: math.copysign(1.0, x) < 0)
fmath("is_sign_positive", lambda x: math.copysign(1.0, x) > 0)
fmath("exp", math.exp)
fmath("ln", lambda x: math.log(x) if x > 0 else math.nan)
fmath("log2", lambda x: math.log2(x) if x > 0 else math.nan)
fmath("log10", lambda x: math.log10(x) if x > 0 else math.nan)
fmath("cbrt", lambda x: math.copysign(abs(x) ** (1 / 3), x))
fmath("recip", lambda x: 1.0 / x if x else math.copysign(math.inf, x))
fmath("to_radians", math.radians)
fmath("to_degrees", math.degrees)
fmath("asin", math.asin)
fmath("atan", math.atan)


def _total(E, x, y):
    def k(v):
        b = struct.unpack("<q", struct.pack("<d", as_float(v)))[0]
        return b if b >= 0 else b ^ 0x7FFFFFFFFFFFFFFF
    a, b = k(x), k(y)
    return Adt(ORD, (a > b) - (a < b) + 1, {})


CALLS["<impl f64>::total_cmp"] = CALLS["<impl f32>::total_cmp"] = _total


@call("<impl f64>::clamp", "<impl f32>::clamp")
def _(E, x, lo, hi):
    x, lo, hi = as_float(x), as_float(lo), as_float(hi)
    chk(lo <= hi)
    return lo if x < lo else hi if x > hi else x


def smath(names, f):
    @call(*[p + n for n in names.split() for p in ("<impl str>::", "String::", "str::")])
    def _(E, *a):
        if not all(isinstance(x, str) for x in a):
            raise Unsup("string operation")
        return f(*a)


smath("starts_with", lambda a, b: a.startswith(b))
smath("ends_with", lambda a, b: a.endswith(b))
smath("contains", lambda a, b: b in a)
smath("eq_ignore_ascii_case", lambda a, b: a.lower() == b.lower())
smath("to_lowercase to_ascii_lowercase", lambda a: a.lower())
smath("to_uppercase to_ascii_uppercase", lambda a: a.upper())
smath("trim", lambda a: a.strip())
smath("trim_start trim_left", lambda a: a.lstrip())
smath("trim_end trim_right", lambda a: a.rstrip())
smath("as_bytes into_bytes", lambda a: Seq(a.encode()))
smath("to_owned to_string as_str into_string", lambda a: a)


@call("<impl f64>::powi", "<impl f32>::powi")
def _(E, x, n):
    try:
        return as_float(x) ** as_int(n)
    except (OverflowError, ZeroDivisionError):
        return math.inf


@call("Ord::max", "Ord::min")
def _(E, *a):
    return NotImplemented


def _omm(s):
    def f(E, a, b):
        c = E.cmp(a, b)
        if s == "max":
            return b if c <= 0 else a
        return a if c <= 0 else b
    return f


CALLS["Ord::max"] = _omm("max")
CALLS["Ord::min"] = _omm("min")


def vecs(*xs):
    for x in xs:
        if not isinstance(x, Seq):
            return None
    return [[as_float(y) for y in x.x] for x in xs]


def nalg(name, f):
    def g(E, *a):
        v = vecs(*a)
        if v is None:
            return NotImplemented
        return f(*v)
    NALG[name] = g


NALG = {}
nalg("norm", lambda x: math.sqrt(sum(y * y for y in x)))
nalg("magnitude", lambda x: math.sqrt(sum(y * y for y in x)))
nalg("norm_squared", lambda x: sum(y * y for y in x))
nalg("magnitude_squared", lambda x: sum(y * y for y in x))
nalg("dot", lambda x, y: sum(p * q for p, q in zip(x, y)))
nalg("cross", lambda a, b: Seq([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]) if len(a) == len(b) == 3 else Obj(("cross",)))


def _norm(x):
    n = math.sqrt(sum(y * y for y in x))
    return Seq([y / n if n else math.nan for y in x])


nalg("normalize", _norm)


def _red(op):
    def f(E, x):
        if not isinstance(x, Seq) or not x.x:
            return NotImplemented
        r = x.x[0]
        for p in x.x[1:]:
            r = r if (r <= p if op == "min" else r >= p) else p
        return r
    return f


for _n in ("min", "max"):
    CALLS["Matrix::" + _n] = _red(_n)


@call("<T, N>::build_by_ordered_float")
def _(E, x):
    return x if isinstance(x, Seq) else NotImplemented


@call("<T, N>::nearests")
def _(E, tree, q, k):
    if not isinstance(tree, Seq) or not isinstance(q, Seq) or not isinstance(k, int):
        return NotImplemented
    d = []
    for i, x in enumerate(tree.x):
        if not isinstance(x, Seq) or not all(isinstance(y, float) for y in x.x + q.x):
            return NotImplemented
        s = sum((y - z) ** 2 for y, z in zip(x.x, q.x))
        d.append((s != s, 0.0 if s != s else s, i, s))
    # points without a distance come last
    return Seq(Adt("kd_tree::ItemAndDistance", 0, {"item": tree.x[i], "squared_distance": s}) for _, _, i, s in sorted(d)[:max(k, 1)])


def nalgebra_call(name):
    def f(E, *a):
        g = NALG.get(name)
        return g(E, *a) if g else NotImplemented
    return f


for _n in NALG:
    CALLS[_n] = nalgebra_call(_n)
CALLS["Deref::deref"] = CALLS["as_slice"] = CALLS["as_mut_slice"] = lambda E, x: x if isinstance(x, Seq) else NotImplemented


@call("Rng::gen_range")
def _(E, g, r):
    if isinstance(r, Adt) and r.path.endswith("Range"):
        s, e = E.fld(r, "start"), E.fld(r, "end")
        k = ("gr", vkey(g), vkey(r))
        if isinstance(s, int) and isinstance(e, int):
            if e <= s:
                raise Fault("empty range")
            E.rng = True
            return Outs(s + hsh(k) % (e - s), _0=Obj(("rng", k)))
    return NotImplemented


@call("Iterator::next")
def _(E, it):
    s = it.f["0"] if isinstance(it, Adt) and it.path == "iterator" else it
    if not isinstance(s, (Seq, Obj)):
        return NotImplemented
    s = as_seq(s)
    if not s.x:
        return Outs(NONE, _0=Adt("iterator", 0, {"0": Seq(())}))
    return Outs(some(s.x[0]), _0=Adt("iterator", 0, {"0": Seq(s.x[1:])}))


def best(sgn, last, by_key):
    def f(E, s, g):
        if not isinstance(g, Lam) or not isinstance(s, Seq):
            return NotImplemented
        if by_key:
            ks = [g.f([x]) for x in s.x]
        r, tie = None, False
        for i, x in enumerate(s.x):
            if r is None:
                r = i
                continue
            if by_key:
                c = E.cmp(ks[r], ks[i])
            else:
                o = g.f([s.x[r], x])
                if not isinstance(o, Adt):
                    raise Unsup("ordering")
                c = o.variant - 1
            if c == 0 and E.rng and vkey(s.x[r]) != vkey(x):
                tie = True
            if sgn * c < 0:
                tie = False
            if sgn * c < 0 or (c == 0 and last):
                r = i
        if tie:
            # which of several equally good random candidates wins is not specified
            raise Unsup("tie")
        return NONE if r is None else some(s.x[r])
    return f


FULL["std::io::Cursor::<T>::new"] = lambda E, x: Adt("std::io::Cursor", 0, {"inner": x, "pos": 0})
FULL["std::io::Cursor::<T>::into_inner"] = lambda E, c: c.f["inner"] if isinstance(c, Adt) and "inner" in c.f else NotImplemented


@call("voxel_grid::set_all_attributes")
def _(E, l, p, v, b):
    """Some values for the attributes; the size of the point stays the same."""
    if not isinstance(p, Adt) or "buffer" not in p.f:
        return NotImplemented
    k = hsh("set_all", vkey(l), vkey(p), vkey(v), vkey(b))
    d = as_bytes(p.f["buffer"])
    f = dict(p.f)
    f["buffer"] = Seq(hsh(k, i) % 256 for i in range(len(d)))
    return Outs((), _1=Adt(p.path, p.variant, f))


def bsearch(E, s, rank):
    """Binary search in a sorted slice without ambiguous matches: rank(x) compares x with what is sought."""
    cs = [rank(x) for x in s.x]
    if cs != sorted(cs) or cs.count(0) > 1:
        raise Unsup("binary search in a slice that is not strictly sorted")
    lo = cs.count(-1)
    return Adt("std::result::Result", 0 if 0 in cs else 1, {"0": lo})


@call("<impl [T]>::binary_search_by_key")
def _(E, s, q, g):
    if not isinstance(g, Lam) or not isinstance(s, Seq):
        return NotImplemented
    return bsearch(E, s, lambda x: E.cmp(g.f([x]), q))


@call("<impl [T]>::binary_search_by")
def _(E, s, g):
    if not isinstance(g, Lam) or not isinstance(s, Seq):
        return NotImplemented
    return bsearch(E, s, lambda x: g.f([x]).variant - 1)


@call("<impl [T]>::binary_search")
def _(E, s, q):
    if not isinstance(s, Seq):
        return NotImplemented
    return bsearch(E, s, lambda x: E.cmp(x, q))


for _k in (False, True):
    CALLS["Iterator::max_by" + "_key" * _k] = best(1, True, _k)
    CALLS["Iterator::min_by" + "_key" * _k] = best(-1, False, _k)


@call("Iterator::last")
def _(E, s):
    return (some(s.x[-1]) if s.x else NONE) if isinstance(s, Seq) else NotImplemented


@call("Itertools::unique")
def _(E, s):
    if not isinstance(s, Seq):
        return NotImplemented
    out, seen = [], set()
    for x in s.x:
        k = vkey(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return Seq(out)


@call("IntoIterator::into_iter")
def _(E, x):
    return x if isinstance(x, Adt) and x.path == "iterator" else Adt("iterator", 0, {"0": as_seq(x)}) if isinstance(x, (Seq, Obj)) else NotImplemented


# ---------------------------------------------------------------- effects
class Effects:
    """The memory written by a summary, as new values of the roots of the written locations."""

    def __init__(self, E):
        self.E = E
        self.roots = {}
        self.ent = {}

    def other(self, t):
        v = self.E.ev(t)
        k = ("?", vkey(v))
        self.ent[k] = v
        return (k,)

    def run(self, cells):
        todo = []
        for c, v in cells:
            self.expand(c, v, todo)
        # enclosing locations first
        todo.sort(key=lambda x: len(x[0]))
        for p, v in todo:
            r = p[0]
            if r not in self.roots:
                self.roots[r] = self.entry(r)
            self.roots[r] = self.write(self.roots[r], p[1:], v)
        return self.roots

    def entry(self, r):
        if r[0] == "p":
            return self.E.params[r[1]]
        return self.ent.get(r)

    def expand(self, c, v, out):
        E = self.E
        if c.op == "fam":
            n, h, p = c.a
            vs = v
            # a family under a condition
            while vs.op == "ite":
                vs = vs.a[1] if as_bool(E.ev(vs.a[0])) else vs.a[2]
            if vs.op != "fam":
                if vs.op in ("*", "raw"):
                    return
                return  # condition false: unchanged
            for k in range(E.cnt(E.i(n))):
                old = E.bind(h, (k, None))
                try:
                    self.expand(p, vs.a[2], out)
                finally:
                    E.unbind(h, old)
            return
        while v.op == "ite":
            v = v.a[1] if as_bool(E.ev(v.a[0])) else v.a[2]
        if v.op == "*" and v.a[0] is c:
            return  # unchanged
        out.append((self.loc(c), E.ev(v)))

    def loc(self, t):
        E = self.E
        o = t.op
        if o == "ite":
            return self.loc(t.a[1] if as_bool(E.ev(t.a[0])) else t.a[2])
        if o == "param":
            return (("p", t.a[0]),)
        if o == "*":
            return self.loc(t.a[0])
        if o == "fld":
            return self.loc(t.a[0]) + ((".", t.a[1]),)
        if o == "vfld":
            x = t.a[0]
            while x.op == "ite":
                x = x.a[1] if as_bool(E.ev(x.a[0])) else x.a[2]
            if x.op == "call" and x.a[0].split("::")[-1] in ("as_interleaved_mut", "as_columnar_mut"):
                return self.loc(x.a[1])
            return self.loc(t.a[0]) + (("v", t.a[1], t.a[2]),)
        if o == "idx" and t.a[1].op != "rc":
            return self.loc(t.a[0]) + (("i", E.i(t.a[1])),)
        if o == "sub":
            return self.loc(t.a[0]) + (("s", E.i(t.a[1]), E.i(t.a[2])),)
        if o == "castseq":
            return self.loc(t.a[0]) + (("c", E.i(t.a[1]), E.i(t.a[2]), t.a[3], t.a[4]),)
        if o == "mapget":
            return self.loc(t.a[0]) + (("k", vkey(E.ev(t.a[1]))),)
        if o == "frombytes":
            return self.loc(t.a[0]) + (("fb", t.a[1]),)
        if o == "out":
            return self.loc(t.a[1].a[1 + t.a[0]]) if t.a[1].op == "call" else self.other(t)
        if o == "call":
            n = t.a[0].split("::")[-1]
            if n in ("get_point_mut", "get_attribute_mut", "get_point_range_mut", "get_attribute_range_mut"):
                b = E.m.as_buf(E.ev(t.a[1]))
                if n == "get_point_mut":
                    i = E.i(t.a[2])
                    return self.loc(t.a[1]) + (("rows", i, i + 1),)
                if n == "get_point_range_mut":
                    s, e = rng(E, E.ev(t.a[2]))
                    return self.loc(t.a[1]) + (("rows", s, e),)
                d = E.ev(t.a[2])
                if n == "get_attribute_mut":
                    i = E.i(t.a[3])
                    return self.loc(t.a[1]) + (("attr", d, i, i + 1),)
                s, e = rng(E, E.ev(t.a[3]))
                return self.loc(t.a[1]) + (("attr", d, s, e),)
            if n in ("as_mut_slice",):
                return self.loc(t.a[1])
        if o == "static":
            return (("static", t.a[0]),)
        return self.other(t)

    def write(self, base, path, v):
        E = self.E
        if not path:
            return v
        p = path[0]
        k = p[0]
        if base is None or isinstance(base, Adt) and base.path == "part":
            # location without a known entry value: the written part is the effect
            if k in (".", "v", "i", "s", "c", "k", "fb", "rows", "attr"):
                return Adt("part", 0, {**(base.f if base is not None else {}), repr(tuple(q if not isinstance(q, Adt) else vkey(q) for q in path_key(path))): v})
        if k == ".":
            if isinstance(base, Adt):
                f = dict(base.f)
                f[p[1]] = self.write(base.f.get(p[1]), path[1:], v)
                return Adt(base.path, base.variant, f)
            if isinstance(base, tuple):
                l = list(base)
                l[int(p[1])] = self.write(l[int(p[1])], path[1:], v)
                return tuple(l)
            if isinstance(base, Seq) and p[1] in ("coords", "data", "0", "as_mut", "as_slice"):
                return self.write(base, path[1:], v)
            if isinstance(base, Obj):
                return Obj(("wr", base.key, p[1], vkey(self.write(E.fld(base, p[1]), path[1:], v))))
        if k == "v" and isinstance(base, Adt):
            f = dict(base.f)
            f[p[2]] = self.write(base.f.get(p[2]), path[1:], v)
            return Adt(base.path, base.variant, f)
        if k == "i":
            s = as_seq(base)
            if not 0 <= p[1] < len(s.x):
                raise Fault("write index")
            l = list(s.x)
            l[p[1]] = self.write(l[p[1]], path[1:], v)
            return Seq(l)
        if k == "s":
            s = as_seq(base)
            o, n = p[1], p[2]
            if o < 0 or n < 0 or o + n > len(s.x):
                raise Fault("write range")
            w = as_seq(self.write(Seq(s.x[o:o + n]), path[1:], v), n)
            if len(w.x) != n:
                raise Fault("write length")
            return Seq(s.x[:o] + w.x + s.x[o + n:])
        if k == "k" and isinstance(base, Map) and p[1] in base.d:
            d = dict(base.d)
            d[p[1]] = (d[p[1]][0], self.write(d[p[1]][1], path[1:], v))
            return Map(d, base.base)
        if k == "fb":
            x = self.write(E.m.frombytes(base, p[1]), path[1:], v)
            return E.m.tobytes(x, p[1])
        if k == "c":
            s, d, st, dt = p[1:]
            cur = self.regroup(base, s, d, st, dt)
            new = self.write(cur, path[1:], v)
            return self.regroup(new, d, s, dt, st)
        if k in ("rows", "attr"):
            b = E.m.as_buf(base)
            if k == "rows":
                s, e = p[1], p[2]
                chk(s <= e <= len(b.rows))
                cur = Seq(b"".join(b.rows[s:e]))
                new = self.write(cur, path[1:], v)
                nb = as_bytes(new, len(cur.x))
                chk(len(nb) == len(cur.x))
                return put_rows(b, s, nb)
            m = lk(E, b.layout, p[1])
            s, e = p[2], p[3]
            chk(m is not None and s <= e <= len(b.rows))
            x, n = m.f["offset"], m.f["size"]
            cur = Seq(b"".join(q[x:x + n] for q in b.rows[s:e]))
            nb = as_bytes(self.write(cur, path[1:], v), len(cur.x))
            chk(len(nb) == len(cur.x))
            return put_attr(b, m, s, nb)
        if isinstance(base, Obj):
            return Obj(("wr", base.key, repr(p[:1]), vkey(v)))
        raise Unsup("write " + k)

    def regroup(self, v, s, d, st, dt):
        E = self.E
        b = as_bytes(v) if st == "u8" else b"".join(as_bytes(E.m.tobytes(y, st)) for y in as_seq(v).x)
        if dt == "u8":
            return Seq(b)
        if d <= 0 or len(b) % d:
            raise Fault("cast length")
        return Seq(E.m.frombytes(Seq(b[i:i + d]), dt) for i in range(0, len(b), d))


def path_key(path):
    return tuple(tuple(x if not isinstance(x, (Adt, Obj, Seq, Map, Buf)) else vkey(x) for x in p) for p in path)


def outcome(model, params, S, jit=None):
    """-> ("panic",) | ("ok", ret, roots) | ("fault",)"""
    E = Eval(model, params)
    E.jit = jit
    if S.status == "diverges":
        return ("panic",), E
    try:
        pc = as_bool(E.ev(S.pc))
        if not pc or not as_bool(E.ev(S.safe)):
            return ("panic",), E
        ret = E.ev(S.ret)
        roots = Effects(E).run(S.cells)
        return ("ok", ret, roots), E
    except Fault as e:
        return ("fault", str(e)), E


FLOATOPS = {"f+", "f-", "f*", "f/"}


def rounds(*Ss):
    """Does a summary compute with floating-point numbers?"""
    return any(x.op in FLOATOPS for S in Ss for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p] if t is not None for x in TM.subterms(t))


def unstable(model, ps, A, a, B, b):
    """Does either outcome change when the inexact operations are rounded differently?  Then a
    different order of the operations may explain the difference."""
    for S, o in ((A, a), (B, b)):
        for j in range(4):
            try:
                if same_outcome(o, outcome(model, ps, S, j)[0], ps):
                    return True
            except (Unsup, RecursionError, OverflowError, TypeError, AttributeError, KeyError, IndexError, ValueError):
                return True
    return False


def same_outcome(a, b, params):
    if a[0] != b[0]:
        return f"outcome {a[0]} vs {b[0]}"
    if a[0] != "ok":
        return None
    if not veq(a[1], b[1]):
        return "return value"
    for r in set(a[2]) | set(b[2]):
        base = params.get(r[1]) if r[0] == "p" else None
        x, y = a[2].get(r, base), b[2].get(r, base)
        if x is None and y is None:
            continue
        if x is None or y is None or not veq(x, y):
            return "memory " + (r[1] if r[0] == "p" else str(r[0]))
    return None


def hints_of(*Ss):
    h = set()
    for S in Ss:
        for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p]:
            if t is None:
                continue
            for x in TM.subterms(t):
                if x.op == "inf":
                    h.add("step")
                if x.op == "call" and x.a[0] == "PointType::layout":
                    h.add("point")
                if x.op == "call" and x.a[0].endswith(("::is_nan", "::is_finite")):
                    h.add("nan")
                if x.op == "call" and x.a[0] == "PrimitiveType::data_type":
                    h.add("attr")
    return h


def consts_of(S):
    out = set()
    for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p]:
        if t is None:
            continue
        for x in TM.subterms(t):
            if x.op == "num":
                out.add(abs(x.a[0]))
            elif x.op in ("int", "mono"):
                out |= {abs(y) for y in x.a if isinstance(y, int)}
            elif x.op == "str" and isinstance(x.a[0], str):
                out.add(x.a[0])
            elif x.op == "fc":
                try:
                    out.add(abs(float(x.a[0])))
                except (TypeError, ValueError):
                    pass
    return out


def dictionary(A, B):
    """Constants that occur in only one of the two: inputs around them tell the two apart."""
    a, b = consts_of(A), consts_of(B)
    return sorted(b - a, key=repr) + sorted(a - b, key=repr)


def call_names(S):
    out = set()
    for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p]:
        if t is not None:
            for x in TM.subterms(t):
                if x.op == "call":
                    out.add(x.a[0])
    return out


def generators(S):
    """Loop depths at which random generators are obtained."""
    return {len(x.a) for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p] if t is not None for x in TM.subterms(t) if x.op == "call" and x.a[0] == "thread::thread_rng"}


NARROW = ("u8", "u16", "u32", "i8", "i16", "i32")


def casts_of(S):
    return {x.a[1] for t in [S.ret, S.pc, S.safe] + [x for p in S.cells for x in p] if t is not None for x in TM.subterms(t) if x.op == "cast" and x.a[1] in NARROW}


class Result:
    def __init__(self):
        self.equal = None
        self.why = ""
        self.ok = 0
        self.panic = 0
        self.fault = 0
        self.unsup = {}
        self.tried = 0
        self.witness = None

    def __repr__(self):
        return f"<{self.equal} {self.why} ok={self.ok} panic={self.panic} fault={self.fault} unsup={self.unsup} tried={self.tried}>"


def same_form(A, B):
    return A.status == B.status and (A.status != "ok" or A.ret is B.ret and A.pc is B.pc and A.safe is B.safe and len(A.cells) == len(B.cells) and all(a is c and b is d for (a, b), (c, d) in zip(A.cells, B.cells)))


def params_for(model, prog, params):
    ps = {f"p{i}": model.gen(prog, ty, ("p", i)) for i, (_, ty) in enumerate(params)}
    if "step" in model.hints:
        # loops that advance by a parameter until they pass a bound: mostly let them end
        for i, (_, ty) in enumerate(params):
            h = hsh("step", model.seed, i)
            if ty in (("prim", "f64"), ("prim", "f32")) and h % 8:
                ps[f"p{i}"] = (0.5, 0.75, 1.0, 1.5, 2.5, 4.0, 7.0, 12.0)[h // 8 % 8]
    return ps


def compare(prog, params, A, B, want=40, tries=600, secs=20, seed=0):
    """A: reference summary, B: summary of the current code, params: [(name, type)]."""
    R = Result()
    t0 = time.time()
    hints = hints_of(A, B)
    words = dictionary(A, B)
    # Integers are unbounded terms and models are small, so a narrowing cast of a length or an index that the
    # reference does not have (and that is not known to be in range) would never lose anything: in half of the
    # models such a cast keeps only a few values.
    floats = rounds(A, B)
    narrow = sorted(casts_of(B) - casts_of(A))
    s = 0
    while R.ok + min(R.panic, want // 2) < want + want // 2 and R.tried < (tries if R.ok >= want // 2 else 5 * tries) and time.time() - t0 < secs:
        R.tried += 1
        s += 1
        try:
            model = Model((seed, s), hints, words)
            if narrow and s % 2:
                model.shrink = {ty: (2, 3, 5, 7)[hsh("shrink", s, ty) % 4] for ty in narrow}
            ps = params_for(model, prog, params)
            a, EA = outcome(model, ps, A)
        except (Unsup, RecursionError, OverflowError, TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
            k = type(e).__name__ + ":" + str(e)[:60]
            R.unsup[k] = R.unsup.get(k, 0) + 1
            continue
        if a[0] == "fault":
            R.fault += 1
            continue
        if R.panic > want and a[0] == "panic":
            continue
        try:
            b, EB = outcome(model, ps, B)
        except (Unsup, RecursionError, OverflowError, TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
            k = "new " + type(e).__name__ + ":" + str(e)[:60]
            R.unsup[k] = R.unsup.get(k, 0) + 1
            continue
        try:
            d = same_outcome(a, b, ps)
        except Unsup as e:
            R.unsup[str(e)] = R.unsup.get(str(e), 0) + 1
            continue
        if d and floats and unstable(model, ps, A, a, B, b):
            R.unsup["rounding"] = R.unsup.get("rounding", 0) + 1
            continue
        if a[0] == "ok":
            R.ok += 1
        else:
            R.panic += 1
        if d:
            R.equal = False
            R.why = d
            R.witness = dict(seed=(seed, s), params={k: repr(v)[:600] for k, v in ps.items()}, reference=repr(a)[:1500], current=repr(b)[:1500])
            R.new_calls = EB.ucalls - EA.ucalls - call_names(A)
            if generators(A) != generators(B):
                R.new_calls.add("random generators at another loop depth")
            return R
    R.equal = True if R.ok + R.panic >= want // 2 or (R.ok + R.panic > 5) else None
    return R

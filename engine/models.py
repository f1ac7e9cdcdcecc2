"""Abstract semantics of the library functions the analysed code uses."""
import re

from .facts import *
from .terms import *
from . import terms as TM
from .interp import *
from .linear import simplify, entails

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
USZ = ("prim", "usize")
ANYERR = raw("anyerr")


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and p[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


_strip = {}


def norm_path(p):
    r = _strip.get(p)
    if r is None:
        r = strip_generics(p)
        _strip[p] = r
    return r


INH = {}
TRAIT = {}


def m(*paths):
    def d(f):
        for p in paths:
            INH[p] = f
        return f
    return d


def t(trait, *names):
    def d(f):
        for n in names:
            TRAIT[(trait, n)] = f
        return f
    return d


ITER_TRAITS = {"std::iter::Iterator", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator", "rayon::iter::ParallelIterator", "rayon::iter::IndexedParallelIterator"}


class Models:
    def is_ext(self, s):
        return is_ext(s)

    def is_trait(self, p):
        return any(k[0] == p for k in TRAIT) or p in ITER_TRAITS

    def lookup(self, path, trait, name, targs, atys):
        if trait is not None:
            if trait in ITER_TRAITS:
                return TRAIT.get(("iter", name))
            return TRAIT.get((trait, name))
        return INH.get(norm_path(path))

    # ------------------------------------------------------------ iterators
    def it_len(self, I, st, spec):
        """Number of underlying positions (before filtering)."""
        k = spec.a[0]
        if k == "range":
            lo, hi = spec.a[1], spec.a[2]
            d = sub(hi, lo)
            if nonneg(d) or all(nonneg(x) for x in leaves(d)):
                return d
            if lo is ZERO:
                return hi
            if entails(st.pc, ge0(d)):
                return d
            return mk_max(d, ZERO)
        if k == "slice":
            return spec.a[2]
        if k in ("owned", "gen"):
            return slen(spec.a[1])
        if k in ("map", "filter", "filter_map", "enum", "rev", "cloned", "inspect"):
            return self.it_len(I, st, spec.a[1])
        if k == "zip" and spec.a[1].a[0] == "repeat":
            return self.it_len(I, st, spec.a[2])
        if k == "zip" and spec.a[2].a[0] == "repeat":
            return self.it_len(I, st, spec.a[1])
        if k == "zip":
            return mk_min(self.it_len(I, st, spec.a[1]), self.it_len(I, st, spec.a[2]))
        if k == "take":
            return mk_min(self.it_len(I, st, spec.a[1]), spec.a[2])
        if k == "skip":
            n = self.it_len(I, st, spec.a[1])
            d = sub(n, spec.a[2])
            if nonneg(d) or entails(st.pc, ge0(d)):
                return d
            return mk_max(d, ZERO)
        if k == "chunks_exact":
            return div(spec.a[2], spec.a[3])
        if k == "chunks":
            q = div(spec.a[2], spec.a[3])
            if q.op != "div":
                return q
            return div(add(spec.a[2], sub(spec.a[3], ONE)), spec.a[3])
        if k == "windows":
            return mk_max(add(sub(spec.a[2], spec.a[3]), ONE), ZERO)
        if k == "step_by":
            n = self.it_len(I, st, spec.a[1])
            q = div(n, spec.a[2])
            if q.op != "div":
                return q
            return div(add(n, sub(spec.a[2], ONE)), spec.a[2])
        if k == "mapiter":
            return raw("maplen", TM.mapbase(spec.a[2]))
        if k == "chain":
            a = self.it_len(I, st, spec.a[1])
            b = self.it_len(I, st, spec.a[2])
            return add(a, b)
        if k == "seq":  # abstract sequence: length term, base term
            return spec.a[1]
        if k == "repeat":
            return None
        if k == "ext":
            raise Unknown("length of an iterator without positions")
        return None

    def it_item(self, I, st, spec, k):
        """-> (guard under which position k yields, item)"""
        o = spec.a[0]
        if o == "range":
            return TRUE, add(spec.a[1], k)
        if o == "slice":
            return TRUE, extend_lift(spec.a[1], "I", k)
        if o in ("owned", "gen"):
            return TRUE, idx(spec.a[1], k)
        if o == "repeat":
            return TRUE, spec.a[1]
        if o == "map":
            g, x = self.it_item(I, st, spec.a[1], k)
            return g, self.guarded(I, st, g, lambda s: I.call_value(s, spec.a[2], [x], self.site(I), 8, None, [None]))
        if o == "inspect":
            g, x = self.it_item(I, st, spec.a[1], k)
            c = self.tmp(I, st, x)
            self.guarded(I, st, g, lambda s: I.call_value(s, spec.a[2], [c], self.site(I), 8, None, [None]))
            return g, x
        if o == "filter":
            g, x = self.it_item(I, st, spec.a[1], k)
            c = self.tmp(I, st, x)
            p = self.guarded(I, st, g, lambda s: I.call_value(s, spec.a[2], [c], self.site(I), 8, ("prim", "bool"), [("ref", False, ("param", "?"))]))
            return band(g, mk_bv(p)), x
        if o == "filter_map":
            g, x = self.it_item(I, st, spec.a[1], k)
            r = self.guarded(I, st, g, lambda s: I.call_value(s, spec.a[2], [x], self.site(I), 8, None, [None]))
            return band(g, is_variant(r, 1, OPT)), vfld(r, 1, "0")
        if o == "enum":
            g, x = self.it_item(I, st, spec.a[1], k)
            if g is not TRUE:
                return g, tup(self.rank(I, st, spec.a[1], k), x)
            return g, tup(k, x)
        if o == "zip":
            g1, x = self.it_item(I, st, spec.a[1], k)
            g2, y = self.it_item(I, st, spec.a[2], k)
            if g1 is not TRUE or g2 is not TRUE:
                raise Unknown("zip over filter")
            return TRUE, tup(x, y)
        if o == "rev":
            n = self.it_len(I, st, spec.a[1])
            return self.it_item(I, st, spec.a[1], sub(sub(n, ONE), k))
        if o == "cloned":
            g, x = self.it_item(I, st, spec.a[1], k)
            return g, I.load(st, x)
        if o == "take":
            g, x = self.it_item(I, st, spec.a[1], k)
            if g is not TRUE:
                raise Unknown("take over filter")
            return g, x
        if o == "skip":
            g, x = self.it_item(I, st, spec.a[1], add(k, spec.a[2]))
            if g is not TRUE:
                raise Unknown("skip over filter")
            return g, x
        if o == "step_by":
            g, x = self.it_item(I, st, spec.a[1], mul(k, spec.a[2]))
            if g is not TRUE:
                raise Unknown("step over filter")
            return g, x
        if o == "chunks_exact":
            s = spec.a[3]
            return TRUE, extend_lift(spec.a[1], "S", mul(k, s), s)
        if o == "chunks":
            s = spec.a[3]
            q = div(spec.a[2], s)
            if q.op != "div":
                return TRUE, extend_lift(spec.a[1], "S", mul(k, s), s)
            return TRUE, extend_lift(spec.a[1], "S", mul(k, s), mk_min(s, sub(spec.a[2], mul(k, s))))
        if o == "windows":
            return TRUE, extend_lift(spec.a[1], "S", k, spec.a[3])
        if o == "mapiter":
            keyt = raw("mapkey", TM.mapbase(spec.a[2]), k)
            ptr = extend_lift(spec.a[1], "K", keyt)
            kind = spec.a[3]
            kp = self.tmp(I, st, keyt)
            if kind == "iter":
                return TRUE, tup(kp, ptr)
            if kind == "values":
                return TRUE, ptr
            if kind == "keys":
                return TRUE, kp
            if kind == "owned":
                return TRUE, tup(keyt, I.load(st, ptr))
        if o == "chain":
            n = self.it_len(I, st, spec.a[1])
            c = lt(k, n)
            g1, x = self.it_item(I, st, spec.a[1], k)
            g2, y = self.it_item(I, st, spec.a[2], sub(k, n))
            return ite(c, g1, g2), ite(c, x, y)
        if o == "seq":
            return TRUE, I.typed(raw("call", spec.a[3], spec.a[2], k), None)
        raise Unknown("iterator item " + o)

    def pull(self, I, st, spec, pos):
        """Next item of an iterator that has no positions (it calls `next` of an analysed iterator).
        -> (there is one, guard under which it is yielded, item)"""
        o = spec.a[0]
        if o == "ext":
            ty = I.exts[spec.a[1]]
            res = I.resolve("", "", "std::iter::Iterator", "next", [ty])
            if res is None or I.opaque(res[0]) or I.stack.count(res[0].id) >= 2:
                raise Unknown("next of " + ty_str(ty))
            I.inlined.add(res[0].id)
            r = I.run_fn(res[0], [spec.a[1]], st, res[1], "next", 10)
            return is_variant(r, 1, OPT), TRUE, vfld(r, 1, "0")
        if not is_ext(spec):
            has = simplify(lt(pos, self.it_len(I, st, spec)), st.pc)

            def item(s):
                g, x = self.it_item(I, s, spec, pos)
                if g is not TRUE:
                    raise Unknown("pull from a filtered iterator")
                return x
            return has, TRUE, self.guarded(I, st, has, item)
        if o == "take":
            c = simplify(lt(pos, spec.a[2]), st.pc)
            def some_more(s):
                h, g, x = self.pull(I, s, spec.a[1], pos)
                if g is not TRUE:
                    raise Unknown("take over filter")
                return tup(h, x)
            r = I.branch(st, c, some_more, lambda s: tup(FALSE, DC))
            return mk_bv(fld(r, "0")), TRUE, fld(r, "1")
        h, g, x = self.pull(I, st, spec.a[1], pos)
        on = band(h, g)
        if o == "map":
            return h, g, self.guarded(I, st, on, lambda s: I.call_value(s, spec.a[2], [x], self.site(I), 8, None, [None]))
        if o == "cloned":
            return h, g, self.guarded(I, st, on, lambda s: I.load(s, x))
        if o == "inspect":
            c = self.tmp(I, st, x)
            self.guarded(I, st, on, lambda s: I.call_value(s, spec.a[2], [c], self.site(I), 8, None, [None]))
            return h, g, x
        if o == "filter":
            c = self.tmp(I, st, x)
            p = self.guarded(I, st, on, lambda s: I.call_value(s, spec.a[2], [c], self.site(I), 8, ("prim", "bool"), [("ref", False, ("param", "?"))]))
            return h, band(g, mk_bv(p)), x
        if o == "filter_map":
            r = self.guarded(I, st, on, lambda s: I.call_value(s, spec.a[2], [x], self.site(I), 8, None, [None]))
            return h, band(g, is_variant(r, 1, OPT)), vfld(r, 1, "0")
        if o == "enum" and g is TRUE:
            return h, g, tup(pos, x)
        if o == "zip" and g is TRUE:
            def other(s):
                h2, g2, y = self.pull(I, s, spec.a[2], pos)
                if g2 is not TRUE:
                    raise Unknown("zip over filter")
                return tup(h2, y)
            r = I.branch(st, h, other, lambda s: tup(FALSE, DC))
            return band(h, mk_bv(fld(r, "0"))), TRUE, tup(x, fld(r, "1"))
        raise Unknown("pull " + o)

    def rank(self, I, st, spec, k):
        """Number of positions before k that yield an item."""
        uid = I.fresh()
        s2 = st.copy()
        g, _ = self.it_item(I, s2, spec, raw("kv", uid))
        p = I.phi_term(uid, 0, ZERO)
        r = TM.mk_rec(uid, k, [(ZERO, ite(g, add(p, ONE), p))], 0)
        for l in leaves(r):
            if l.op == "rec":
                TM.UNSIGNED.add(l)
        return r

    def guarded(self, I, st, g, f):
        if g is TRUE:
            return f(st)
        return I.branch(st, g, f, lambda s: DC)

    def site(self, I):
        return "it"

    def tmp(self, I, st, v):
        """A fresh temporary holding v; returns its address."""
        c = raw("tmpcell", v)
        st.cells[c] = v
        return ref(c)


def content(I, st, v, ty):
    """Follow references according to the static type."""
    n = 0
    while ty is not None and ty[0] == "ref" and n < 6:
        v = I.load(st, v, ty[2])
        ty = ty[2]
        n += 1
    return v, ty


def is_ext(spec):
    return spec.a[0] == "ext" or any(isinstance(x, T) and x.op == "spec" and is_ext(x) for x in spec.a[1:])


def is_filtered(spec):
    if spec.a[0] in ("filter", "filter_map"):
        return True
    return any(isinstance(x, T) and x.op == "spec" and is_filtered(x) for x in spec.a[1:])


def spec(*a):
    return raw("spec", *a)


def it(s, pos=ZERO):
    return raw("it", s, pos)


# ---------------------------------------------------------------- into_iter
def into_it(I, st, v, ty):
    """Iterator value for something iterable."""
    if v.op == "ite":
        a = into_it(I, st, v.a[1], ty)
        b = into_it(I, st, v.a[2], ty)
        return ite(v.a[0], a, b)
    if v.op == "it":
        return v
    if ty is None:
        if v.op in ("arr", "rep", "vecof", "cat", "sub", "upd"):
            return it(spec("owned", v))
        raise Unknown("into_iter untyped")
    k = ty[0]
    if k == "adt":
        p = ty[1]
        if p.endswith("ops::Range"):
            return it(spec("range", fld(v, "start"), fld(v, "end")))
        if p.endswith("RangeInclusive"):
            return it(spec("range", fld(v, "start"), add(fld(v, "end"), ONE)))
        if p in ("std::vec::Vec", "std::vec::IntoIter"):
            return it(spec("owned", v))
        if p == "std::collections::HashMap" or p.endswith("HashMap"):
            c = raw("tmpcell", v)
            st.cells[c] = v
            return it(spec("mapiter", ref(c), v, "owned"))
        if I.prog.find_impl_item("std::iter::Iterator", "next", ty, [ty]):
            return v  # every iterator is its own IntoIterator
        if p == OPT:
            n = ite(is_variant(v, 1, OPT), ONE, ZERO)
            return it(spec("owned", ite(is_variant(v, 1, OPT), raw("arr", vfld(v, 1, "0")), raw("arr"))))
    if k == "array":
        return it(spec("owned", v))
    if k == "ref":
        inner = ty[2]
        if inner[0] in ("slice", "array") or (inner[0] == "adt" and inner[1] == "std::vec::Vec"):
            return it(spec("slice", v, slen(I.load(st, v))))
        if inner[0] == "adt" and inner[1].endswith("HashMap"):
            return it(spec("mapiter", v, I.load(st, v), "iter"))
        if inner[0] == "adt" and inner[1].endswith("HashSet"):
            raise Unknown("set iteration")
        if inner[0] == "ref":
            return into_it(I, st, I.load(st, v), inner)
        x = I.load(st, v)
        if x.op == "it":
            return v  # &mut iterator
        if inner[0] == "adt" and (inner[1].endswith("ops::Range") or inner[1].endswith("RangeInclusive")) and ty[1]:
            # the consumer advances the range; its later value is not tracked
            r = into_it(I, st, x, inner)
            I.store(st, v, unk("consumed range"))
            return r
        if inner[0] == "adt" and inner[1] == OPT:
            e = extend(v, raw("pv", 1, "0"))
            return it(spec("owned", ite(is_variant(x, 1, OPT), raw("arr", e), raw("arr"))))
    if k in ("param", "alias"):
        return it(spec("gen", lift_call("items", [I.canon_val(st, v)])))
    raise Unknown("into_iter " + ty_str(ty))


@t("std::iter::IntoIterator", "into_iter")
def _(I, st, a, c):
    return into_it(I, st, a[0], c["targs"][0] if c["targs"] else c["atys"][0])


@t("rayon::iter::IntoParallelIterator", "into_par_iter")
def _(I, st, a, c):
    return into_it(I, st, a[0], c["targs"][0])


@t("rayon::iter::IntoParallelRefIterator", "par_iter")
def _(I, st, a, c):
    return into_it(I, st, a[0], ("ref", False, c["targs"][0]))


def self_it(I, st, v, ty=None):
    """The iterator denoted by a by-value self argument."""
    if v.op == "ref":
        x = I.load(st, v)
        if x.op == "it":
            return x
    if v.op == "it":
        return v
    if v.op == "ite":
        r = lift1(lambda x: self_it(I, st, x, ty), v)
        if r.op == "it":
            return r
    return into_it(I, st, v, ty)


def ext(I, st, v, ty):
    """The iterator of the analysed program denoted by v (a value, or a mutable reference to one)."""
    ptr = None
    while ty is not None and ty[0] == "ref":
        ptr, ty = v, ty[2]
        v = I.load(st, v)
    if ty is None or ty[0] != "adt" or not I.prog.find_impl_item("std::iter::Iterator", "next", ty, [ty]):
        return None
    if ptr is None:
        c = raw("acc", "iter", I.fresh())
        st.cells[c] = v
        ptr = ref(c)
    elif ptr.op != "ref":
        return None
    I.exts[ptr] = ty
    return spec("ext", ptr)


def materialise(I, st, s, c):
    """A positional iterator over the items of s (its closures run now instead of on demand)."""
    return spec("owned", collect_vec(I, st, s, c))


def positional(I, st, s, c):
    return materialise(I, st, s, c) if is_filtered(s) or is_ext(s) else s


def get_spec(I, st, v, ty=None):
    try:
        x = self_it(I, st, v, ty)
    except Unknown:
        x = None
    if x is None or x.op != "it":
        e = ext(I, st, v, ty)
        if e is None:
            raise Unknown("conditional iterator")
        return e
    s, pos = x.a
    if pos is not ZERO:
        s = spec("skip", s, pos)
    return s


def wrap(kind):
    def f(I, st, a, c):
        s = get_spec(I, st, a[0], c["atys"][0])
        if kind == "take" and s.a[0] == "repeat":
            return it(spec("owned", lift(lambda v, k: raw("rep", v, k), s.a[1], a[1])))
        if kind in ("take", "skip", "step_by") and is_filtered(s) and not is_ext(s):
            s = materialise(I, st, s, c)
        return it(spec(kind, s, *a[1:]))
    return f


for _k, _n in (("map", "map"), ("filter", "filter"), ("filter_map", "filter_map"), ("take", "take"), ("skip", "skip"), ("step_by", "step_by"), ("inspect", "inspect")):
    TRAIT[("iter", _n)] = wrap(_k)
TRAIT[("iter", "enumerate")] = wrap("enum")
TRAIT[("iter", "rev")] = wrap("rev")
TRAIT[("iter", "cloned")] = wrap("cloned")
TRAIT[("iter", "copied")] = wrap("cloned")


@t("iter", "zip")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    s2 = get_spec(I, st, into_it(I, st, a[1], c["atys"][1]) if a[1].op not in ("it", "ref") else (a[1] if a[1].op == "it" else into_it(I, st, a[1], c["atys"][1])))
    return it(spec("zip", s, s2))


@m("std::iter::zip")
def _(I, st, a, c):
    s = get_spec(I, st, into_it(I, st, a[0], c["atys"][0]))
    s2 = get_spec(I, st, into_it(I, st, a[1], c["atys"][1]))
    return it(spec("zip", s, s2))


@t("iter", "chain")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    s2 = get_spec(I, st, into_it(I, st, a[1], c["atys"][1]))
    if is_filtered(s) and not is_ext(s):
        s = materialise(I, st, s, c)
    if is_filtered(s2) and not is_ext(s2):
        s2 = materialise(I, st, s2, c)
    return it(spec("chain", s, s2))


@m("std::iter::repeat")
def _(I, st, a, c):
    return it(spec("repeat", a[0]))


@m("std::iter::repeat_n")
def _(I, st, a, c):
    return it(spec("owned", lift(lambda v, k: raw("rep", v, k), a[0], a[1])))


@m("std::iter::once")
def _(I, st, a, c):
    return it(spec("owned", raw("arr", a[0])))


@m("std::iter::empty")
def _(I, st, a, c):
    return it(spec("owned", raw("arr")))


def _until(kind):
    """take_while, skip_while, map_while: the items are determined up front."""
    def f(I, st, a, c):
        s = get_spec(I, st, a[0], c["atys"][0])
        acc = raw("acc", kind, c["site"])
        cell = raw("acc", "f", c["site"])
        on = raw("acc", "on", c["site"])
        st.cells[acc] = raw("arr")
        st.cells[cell] = a[1]
        if kind == "skip_while":
            st.cells[on] = ZERO

        def body(s2, x):
            one = lambda v: cat(s2.cells[acc], raw("arr", v))
            if kind == "map_while":
                r = I.call_value(s2, ref(cell), [x], c["site"], c["depth"], None, [None])
                g = is_variant(r, 1, OPT)
                s2.cells[acc] = ite(g, one(vfld(r, 1, "0")), s2.cells[acc])
                return bnot(g)
            arg = I.models.tmp(I, s2, x)
            p = mk_bv(I.call_value(s2, ref(cell), [arg], c["site"], c["depth"], ("prim", "bool"), [("ref", False, ("param", "?"))]))
            if kind == "take_while":
                s2.cells[acc] = ite(p, one(x), s2.cells[acc])
                return bnot(p)
            p = bor(bnot(p), eq(s2.cells[on], ONE))
            s2.cells[on] = ite(p, ONE, ZERO)
            s2.cells[acc] = ite(p, one(x), s2.cells[acc])
            return None

        I.pseudo_loop(st, s, body)
        st.cells.pop(on, None)
        return it(spec("owned", st.cells.pop(acc)))
    return f


for _k in ("take_while", "skip_while", "map_while"):
    TRAIT[("iter", _k)] = _until(_k)


@t("iter", "flat_map", "flatten")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    acc = raw("acc", "flat", c["site"])
    cell = raw("acc", "f", c["site"])
    st.cells[acc] = raw("arr")
    if c["name"] == "flat_map":
        st.cells[cell] = a[1]
    inner = None
    rt = c["ret"]
    if rt is not None and rt[0] == "adt":
        # FlatMap<I, U, F> / Flatten<I>
        inner = rt[2][1] if c["name"] == "flat_map" and len(rt[2]) > 1 else item_ty(rt[2][0])

    def body(s2, x):
        y = I.call_value(s2, ref(cell), [x], c["site"], c["depth"], inner, [None]) if c["name"] == "flat_map" else x
        s3 = get_spec(I, s2, into_it(I, s2, y, inner) if y.op != "it" else y)
        v = s3.a[1] if s3.a[0] == "owned" else collect_vec(I, s2, s3, dict(c, site=str(c["site"]) + "i"))
        s2.cells[acc] = cat(s2.cells[acc], v)
        return None

    I.pseudo_loop(st, s, body)
    return it(spec("owned", st.cells.pop(acc)))


def item_ty(ty):
    """Item type of the common iterator types."""
    if ty is None or ty[0] != "adt":
        return None
    n = ty[1].split("::")[-1]
    if n == "Iter" and "slice" in ty[1]:
        return ("ref", False, ty[2][-1])
    if n == "IterMut" and "slice" in ty[1]:
        return ("ref", True, ty[2][-1])
    if n == "IntoIter" and "vec" in ty[1]:
        return ty[2][0]
    return None


@t("iter", "scan")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    acc, cell, stt = (raw("acc", k, c["site"]) for k in ("scan", "f", "state"))
    st.cells[acc] = raw("arr")
    st.cells[stt] = a[1]
    st.cells[cell] = a[2]

    def body(s2, x):
        r = I.call_value(s2, ref(cell), [ref(stt), x], c["site"], c["depth"], None, [None, None])
        g = is_variant(r, 1, OPT)
        s2.cells[acc] = ite(g, cat(s2.cells[acc], raw("arr", vfld(r, 1, "0"))), s2.cells[acc])
        return bnot(g)

    I.pseudo_loop(st, s, body)
    st.cells.pop(stt, None)
    return it(spec("owned", st.cells.pop(acc)))


@t("iter", "partition")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    rt = c["ret"]
    if not (rt and rt[0] == "tuple" and all(x[0] == "adt" and x[1] == "std::vec::Vec" for x in rt[1])):
        raise Unknown("partition into other collections")
    l, r, cell = (raw("acc", k, c["site"]) for k in ("left", "right", "f"))
    st.cells[l] = st.cells[r] = raw("arr")
    st.cells[cell] = a[1]

    def body(s2, x):
        arg = I.models.tmp(I, s2, x)
        p = mk_bv(I.call_value(s2, ref(cell), [arg], c["site"], c["depth"], ("prim", "bool"), [("ref", False, ("param", "?"))]))
        s2.cells[l] = ite(p, cat(s2.cells[l], raw("arr", x)), s2.cells[l])
        s2.cells[r] = ite(p, s2.cells[r], cat(s2.cells[r], raw("arr", x)))
        return None

    I.pseudo_loop(st, s, body)
    return tup(st.cells.pop(l), st.cells.pop(r))


@t("iter", "unzip")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    rt = c["ret"]
    if not (rt and rt[0] == "tuple" and all(x[0] == "adt" and x[1] == "std::vec::Vec" for x in rt[1])):
        raise Unknown("unzip into other collections")
    l, r = (raw("acc", k, c["site"]) for k in ("left", "right"))
    st.cells[l] = st.cells[r] = raw("arr")

    def body(s2, x):
        s2.cells[l] = cat(s2.cells[l], raw("arr", fld(x, "0")))
        s2.cells[r] = cat(s2.cells[r], raw("arr", fld(x, "1")))
        return None

    I.pseudo_loop(st, s, body)
    return tup(st.cells.pop(l), st.cells.pop(r))


@t("iter", "try_fold", "try_for_each")
def _(I, st, a, c):
    v = I.load(st, a[0]) if a[0].op == "ref" else a[0]
    s = get_spec(I, st, a[0], c["atys"][0])
    rt = c["ret"]
    if not (rt and rt[0] == "adt" and rt[1] in (OPT, RES)):
        raise Unknown("try_fold")
    p, good = rt[1], (1 if rt[1] == OPT else 0)
    mk = some if p == OPT else ok
    each = c["name"] == "try_for_each"
    acc, out, cell = (raw("acc", k, c["site"]) for k in ("fold", "out", "f"))
    st.cells[acc] = UNIT if each else a[1]
    st.cells[cell] = a[-1]
    st.cells[out] = NONE

    def body(s2, x):
        r = I.call_value(s2, ref(cell), [x] if each else [s2.cells[acc], x], c["site"], c["depth"], rt, [None, None][:1 if each else 2])
        g = is_variant(r, good, p)
        s2.cells[acc] = ite(g, UNIT if each else vfld(r, good, "0"), s2.cells[acc])
        s2.cells[out] = ite(g, s2.cells[out], r)
        return bnot(g)

    brk = I.pseudo_loop(st, s, body)
    if a[0].op == "ref" and v.op == "it":
        I.store(st, a[0], unk("consumed iterator"))
    return ite(brk, st.cells.pop(out), mk(st.cells.pop(acc)))


@t("iter", "rposition")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    out, cell, cnt = (raw("acc", k, c["site"]) for k in ("rpos", "f", "i"))
    st.cells[out], st.cells[cell], st.cells[cnt] = NONE, a[1], ZERO

    def body(s2, x):
        p = mk_bv(I.call_value(s2, ref(cell), [x], c["site"], c["depth"], ("prim", "bool"), [None]))
        s2.cells[out] = ite(p, some(s2.cells[cnt]), s2.cells[out])
        s2.cells[cnt] = add(s2.cells[cnt], ONE)
        return None

    I.pseudo_loop(st, s, body)
    st.cells.pop(cnt)
    return st.cells.pop(out)


@t("iter", "peekable")
def _(I, st, a, c):
    return it(positional(I, st, get_spec(I, st, a[0], c["atys"][0]), c))


@m("std::iter::Peekable::peek")
def _(I, st, a, c):
    v = I.load(st, a[0])
    if v.op != "it":
        raise Unknown("peek")
    s, pos = v.a
    n = I.models.it_len(I, st, s)
    return I.branch(st, simplify(lt(pos, n), st.pc), lambda s2: some(I.models.tmp(I, s2, I.models.it_item(I, s2, s, pos)[1])), lambda s2: NONE)


@t("iter", "by_ref")
def _(I, st, a, c):
    return a[0]


@t("iter", "next")
def _(I, st, a, c):
    ptr = a[0]
    v = I.load(st, ptr)
    ty = c["targs"][0] if c["targs"] else None
    while v.op == "ref":
        ptr = v
        v = I.load(st, v)
    if v.op != "it" and ty is not None and ty[0] == "adt" and ty[1].endswith("ops::Range"):
        lo, hi = fld(v, "start"), fld(v, "end")
        cnd = lt(lo, hi)
        I.store(st, ptr, ite(cnd, with_fld(v, "start", add(lo, ONE)), v))
        return ite(cnd, some(lo), NONE)
    if v.op != "it":
        raise Unknown("next on " + v.op)
    s, pos = v.a
    fr = c["fr"]
    if is_ext(s):
        h, g, item = I.models.pull(I, st, s, pos)
        I.store(st, ptr, it(s, add(pos, ONE)))
        skip = simplify(band(h, bnot(g)), st.pc)
        if skip is not FALSE:
            lc = fr.loop
            if lc is None or lc.header is None:
                raise Unknown("filtered next outside a loop")
            sk = st.copy()
            sk.pc = band(st.pc, skip)
            lc.back.append((sk.pc, sk))
            st.pc = band(st.pc, bnot(skip))
            if st.pc is FALSE:
                raise Diverge()
        return ite(simplify(h, st.pc), some(item), NONE)
    n = I.models.it_len(I, st, s)
    if n is None:
        raise Unknown("unbounded iterator")
    if is_filtered(s) and (fr.loop is None or fr.loop.header is None):
        if pos is not ZERO:
            raise Unknown("filtered next")
        out = raw("acc", "next", c["site"])
        st.cells[out] = NONE

        def body(s2, x):
            s2.cells[out] = some(x)
            return TRUE

        I.pseudo_loop(st, s, body)
        I.store(st, ptr, raw("call", "Iterator::rest", v))
        return st.cells.pop(out)
    more = simplify(lt(pos, n), st.pc)
    I.store(st, ptr, it(s, add(pos, ONE)))

    def yes(s2):
        g, item = I.models.it_item(I, s2, s, pos)
        if g is not TRUE:
            g = simplify(g, s2.pc)
            if g is not TRUE:
                lc = fr.loop
                if lc is None or lc.header is None:
                    raise Unknown("filtered next outside a loop")
                sk = s2.copy()
                sk.pc = band(s2.pc, bnot(g))
                if sk.pc is not FALSE:
                    lc.back.append((sk.pc, sk))
                s2.pc = band(s2.pc, g)
                if s2.pc is FALSE:
                    raise Diverge()
        return some(item)

    return I.branch(st, more, yes, lambda s2: NONE)


@t("iter", "nth")
def _(I, st, a, c):
    v = I.load(st, a[0])
    ty = c["targs"][0] if c["targs"] else None
    if v.op != "it" and ty is not None and ty[0] == "adt" and ty[1].endswith("ops::Range"):
        lo, hi = fld(v, "start"), fld(v, "end")
        p = add(lo, a[1])
        cnd = lt(p, hi)
        I.store(st, a[0], with_fld(v, "start", ite(cnd, add(p, ONE), mk_max(lo, hi))))
        return ite(cnd, some(p), NONE)
    if v.op != "it" or is_filtered(v.a[0]):
        raise Unknown("nth")
    s, pos = v.a
    p = add(pos, a[1])
    n = I.models.it_len(I, st, s)
    more = simplify(lt(p, n), st.pc)
    I.store(st, a[0], it(s, add(p, ONE)))
    return I.branch(st, more, lambda s2: some(I.models.it_item(I, s2, s, p)[1]), lambda s2: NONE)


@t("iter", "size_hint")
def _(I, st, a, c):
    v = I.load(st, a[0])
    if v.op != "it" or is_filtered(v.a[0]):
        raise Unknown("size_hint")
    if v.a[0].a[0] == "gen":
        h = lift_call("size_hint", [v.a[0].a[1]])
        return tup(I.typed(fld(h, "0"), ("prim", "usize")), fld(h, "1"))
    n = sub(I.models.it_len(I, st, v.a[0]), v.a[1])
    return tup(n, some(n))


@t("iter", "len")
def _(I, st, a, c):
    v = I.load(st, a[0])
    ty = c["targs"][0] if c["targs"] else None
    if v.op != "it" and ty is not None and ty[0] == "adt" and ty[1].endswith("ops::Range"):
        return I.models.it_len(I, st, spec("range", fld(v, "start"), fld(v, "end")))
    if v.op != "it" or is_filtered(v.a[0]):
        raise Unknown("len")
    return sub(I.models.it_len(I, st, v.a[0]), v.a[1])


@t("iter", "count")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    if not is_filtered(s) and not is_ext(s):
        return I.models.it_len(I, st, s)
    acc = raw("acc", "count", c["site"])
    st.cells[acc] = ZERO

    def body(s2, x):
        s2.cells[acc] = add(s2.cells[acc], ONE)
        return None

    I.pseudo_loop(st, s, body)
    return st.cells.pop(acc)


@t("iter", "for_each")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    f = a[1]
    cell = raw("acc", "f", c["site"])
    st.cells[cell] = f

    def body(s2, x):
        I.call_value(s2, ref(cell), [x], c["site"], c["depth"], None, [None])
        return None

    I.pseudo_loop(st, s, body)
    return UNIT


@t("iter", "fold")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    acc = raw("acc", "fold", c["site"])
    st.cells[acc] = a[1]
    cell = raw("acc", "f", c["site"])
    st.cells[cell] = a[2]

    def body(s2, x):
        s2.cells[acc] = I.call_value(s2, ref(cell), [s2.cells[acc], x], c["site"], c["depth"], None, [None, None])
        return None

    I.pseudo_loop(st, s, body)
    return st.cells.pop(acc)


def _sum(mulp):
    def f(I, st, a, c):
        s = get_spec(I, st, a[0], c["atys"][0])
        acc = raw("acc", "sum", c["site"])
        rt = c["ret"]
        fl = rt is not None and is_float(rt)
        st.cells[acc] = raw("fc", "1.0" if mulp else "0.0") if fl else (ONE if mulp else ZERO)

        def body(s2, x):
            if x.op == "ref":
                x = I.load(s2, x)
            op = "Mul" if mulp else "Add"
            s2.cells[acc] = I.binop(op, s2.cells[acc], x, rt if fl else USZ)
            return None

        I.pseudo_loop(st, s, body)
        return st.cells.pop(acc)
    return f


TRAIT[("iter", "sum")] = _sum(False)
TRAIT[("iter", "product")] = _sum(True)


def _search(kind):
    def f(I, st, a, c):
        s = get_spec(I, st, a[0], c["atys"][0])
        out = raw("acc", kind, c["site"])
        cell = raw("acc", "f", c["site"])
        cnt = raw("acc", "i", c["site"])
        st.cells[cell] = a[1]
        if kind == "position":
            st.cells[cnt] = ZERO
        st.cells[out] = NONE

        def body(s2, x):
            if kind == "find":
                arg = I.models.tmp(I, s2, x)
                p = mk_bv(I.call_value(s2, ref(cell), [arg], c["site"], c["depth"], ("prim", "bool"), [("ref", False, ("param", "?"))]))
                s2.cells[out] = ite(p, some(x), NONE)
                return p
            if kind == "find_map":
                r = I.call_value(s2, ref(cell), [x], c["site"], c["depth"], None, [None])
                p = is_variant(r, 1, OPT)
                s2.cells[out] = ite(p, some(vfld(r, 1, "0")), NONE)
                return p
            p = mk_bv(I.call_value(s2, ref(cell), [x], c["site"], c["depth"], ("prim", "bool"), [None]))
            if kind == "position":
                s2.cells[out] = ite(p, some(s2.cells[cnt]), NONE)
                s2.cells[cnt] = ite(p, s2.cells[cnt], add(s2.cells[cnt], ONE))
                return p
            if kind == "all":
                return bnot(p)
            return p

        brk = I.pseudo_loop(st, s, body)
        r = st.cells.pop(out)
        if kind == "all":
            return bnot(brk)
        if kind == "any":
            return brk
        return r
    return f


for _n in ("find", "find_map", "position", "all", "any"):
    TRAIT[("iter", _n)] = _search(_n)


@t("iter", "collect")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    rt = c["ret"]
    p = rt[1] if rt and rt[0] == "adt" else None
    if p == "std::vec::Vec" or p == "std::boxed::Box" or p is None:
        return collect_vec(I, st, s, c)
    if p.endswith("HashMap"):
        acc = raw("acc", "collect", c["site"])
        st.cells[acc] = raw("mapnew")

        def body(s2, x):
            k = I.canon_arg(s2, fld(x, "0"))
            s2.cells[acc] = mapins(s2.cells[acc], k, I.canon_val(s2, fld(x, "1")))
            return None

        I.pseudo_loop(st, s, body)
        return st.cells.pop(acc)
    if p in (OPT, RES):
        # short-circuiting collect
        inner = rt[2][0]
        if not (inner[0] == "adt" and inner[1] == "std::vec::Vec"):
            raise Unknown("collect option")
        acc = raw("acc", "collect", c["site"])
        er = raw("acc", "err", c["site"])
        st.cells[acc] = raw("arr")
        st.cells[er] = NONE if p == OPT else err(ANYERR)
        good = 1 if p == OPT else 0

        def body(s2, x):
            g = is_variant(x, good, p)
            s2.cells[acc] = ite(g, cat(s2.cells[acc], raw("arr", vfld(x, good, "0"))), s2.cells[acc])
            if p == RES:
                s2.cells[er] = ite(g, s2.cells[er], err(vfld(x, 1, "0")))
            return bnot(g)

        brk = I.pseudo_loop(st, s, body)
        v = st.cells.pop(acc)
        e = st.cells.pop(er)
        return ite(brk, e, some(v) if p == OPT else ok(v))
    r = I.resolve("", "", "std::iter::FromIterator", "from_iter", [rt, ("param", "?")])
    if r is not None and not I.opaque(r[0]) and I.stack.count(r[0].id) < 2:
        I.inlined.add(r[0].id)
        return I.run_fn(r[0], [it(s)], st, r[1], c["site"], c["depth"] + 1)
    raise Unknown("collect into " + str(p))


def collect_vec(I, st, s, c):
    acc = raw("acc", "collect", c["site"])
    st.cells[acc] = raw("arr")

    def body(s2, x):
        s2.cells[acc] = cat(s2.cells[acc], raw("arr", x))
        return None

    I.pseudo_loop(st, s, body)
    return st.cells.pop(acc)


def _extreme(kind):
    def f(I, st, a, c):
        s = get_spec(I, st, a[0], c["atys"][0])
        if len(a) > 1:
            raise Unknown(kind)
        acc = raw("acc", kind, c["site"])
        st.cells[acc] = NONE
        byref = []

        def body(s2, x):
            v = I.load(s2, x) if x.op == "ref" else x
            byref.append(x.op == "ref")
            o = s2.cells[acc]
            isS = is_variant(o, 1, OPT)
            cur = vfld(o, 1, "0")
            s2.cells[acc] = ite(isS, some((mk_max if kind == "max" else mk_min)(cur, v)), some(v))
            return None

        I.pseudo_loop(st, s, body)
        r = st.cells.pop(acc)
        if any(byref):
            return ite(is_variant(r, 1, OPT), some(I.models.tmp(I, st, vfld(r, 1, "0"))), NONE)
        return r
    return f


TRAIT[("iter", "max")] = _extreme("max")
TRAIT[("iter", "min")] = _extreme("min")


@t("iter", "max_by", "min_by", "max_by_key", "min_by_key", "reduce", "reduce_with", "last")
def _(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    if c["name"] == "last" and not is_filtered(s):
        n = I.models.it_len(I, st, s)
        return I.branch(st, bnot(eq(n, ZERO)), lambda s2: some(I.models.it_item(I, s2, s, sub(n, ONE))[1]), lambda s2: NONE)
    name = c["name"]
    if name in ("reduce", "reduce_with") and len(a) == 2:
        acc, cell = raw("acc", "reduce", c["site"]), raw("acc", "f", c["site"])
        st.cells[acc], st.cells[cell] = NONE, a[1]

        def body(s2, x):
            o = s2.cells[acc]
            s2.cells[acc] = I.branch(s2, is_variant(o, 1, OPT), lambda s3: some(I.call_value(s3, ref(cell), [vfld(o, 1, "0"), x], c["site"], c["depth"], None, [None, None])), lambda s3: some(x))
            return None

        I.pseudo_loop(st, s, body)
        return st.cells.pop(acc)
    seq = spec_term(I, st, s)
    if len(a) > 1:
        fv = I.canon_val(st, a[1])
        if name in ("max_by", "min_by"):
            k = key_of(fv)
            if k is not None:
                name, fv = name + "_key", k
        return raw("call", "Iterator::" + name, seq, fv)
    return raw("call", "Iterator::" + name, seq)


def key_of(lam):
    """|a, b| f(a).cmp(f(b)), as |a| f(a)"""
    b = lam.a[0] if lam.op == "lam" else None
    if b is None:
        return None
    if b.op == "cmp":
        x, y = b.a
        return raw("lam", x) if subst(x, {raw("lp", 0): raw("lp", 1)}) is y else None
    x = ord_key(b)
    return raw("lam", x) if x is not None else None


def uniq(I, st, a, c):
    s = get_spec(I, st, a[0], c["atys"][0])
    return raw("call", "Itertools::unique", spec_term(I, st, s))


@t("itertools::Itertools", "unique")
def _(I, st, a, c):
    return it(spec("gen", uniq(I, st, a, c)))


@t("itertools::Itertools", "all_unique")
def _(I, st, a, c):
    u = uniq(I, st, a, c)
    return eq(slen(u), slen(u.a[1]))


def spec_term(I, st, s):
    """The sequence an iterator produces, as a value."""
    s2 = st.copy()
    acc = raw("acc", "seq")
    s2.cells[acc] = raw("arr")

    def body(s3, x):
        s3.cells[acc] = cat(s3.cells[acc], raw("arr", I.canon_val(s3, x)))
        return None

    I.pseudo_loop(s2, s, body)
    return s2.cells[acc]


@t("iter", "eq")
def _(I, st, a, c):
    s1 = get_spec(I, st, a[0], c["atys"][0])
    s2 = get_spec(I, st, into_it(I, st, a[1], c["atys"][1]))
    return eq(spec_term(I, st, s1), spec_term(I, st, s2))


@t("std::iter::Extend", "extend")
def _(I, st, a, c):
    v = I.load(st, a[0])
    ty = c["targs"][0]
    if not (ty[0] == "adt" and ty[1] == "std::vec::Vec"):
        raise Unknown("extend")
    s = get_spec(I, st, into_it(I, st, a[1], c["atys"][1]))

    def body(s2, x):
        if x.op == "ref":
            x = I.load(s2, x)
        I.store(s2, a[0], cat(I.load(s2, a[0]), raw("arr", x)))
        return None

    I.pseudo_loop(st, s, body)
    return UNIT


@t("std::iter::FromIterator", "from_iter")
def _(I, st, a, c):
    s = get_spec(I, st, into_it(I, st, a[0], c["atys"][0]))
    rt = c["ret"]
    if rt and rt[0] == "adt" and rt[1] == "std::vec::Vec":
        return collect_vec(I, st, s, c)
    raise Unknown("from_iter")


# ---------------------------------------------------------------- Option / Result
def opt(I, st, v, f, g):
    return I.branch(st, is_variant(v, 1, OPT), lambda s: f(s, vfld(v, 1, "0")), g)


def res(I, st, v, f, g):
    return I.branch(st, is_variant(v, 0, RES), lambda s: f(s, vfld(v, 0, "0")), lambda s: g(s, vfld(v, 1, "0")))


def callf(I, s, f, args, c, ret=None):
    return I.call_value(s, f, args, c["site"], c["depth"], ret, [None] * len(args))


@m(OPT + "::is_some")
def _(I, st, a, c):
    return is_variant(I.load(st, a[0]), 1, OPT)


@m(OPT + "::is_none")
def _(I, st, a, c):
    return bnot(is_variant(I.load(st, a[0]), 1, OPT))


@m(RES + "::is_ok")
def _(I, st, a, c):
    return is_variant(I.load(st, a[0]), 0, RES)


@m(RES + "::is_err")
def _(I, st, a, c):
    return bnot(is_variant(I.load(st, a[0]), 0, RES))


@m(OPT + "::unwrap", OPT + "::expect", OPT + "::unwrap_unchecked")
def _(I, st, a, c):
    I.assume(st, is_variant(a[0], 1, OPT))
    return vfld(constrain_val(a[0], st.pc), 1, "0")


@m(RES + "::unwrap", RES + "::expect")
def _(I, st, a, c):
    I.assume(st, is_variant(a[0], 0, RES))
    return vfld(constrain_val(a[0], st.pc), 0, "0")


def constrain_val(v, pc):
    return constrain(v, pc)


@m(OPT + "::map")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: some(callf(I, s, a[1], [x], c)), lambda s: NONE)


@m(OPT + "::and_then")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: callf(I, s, a[1], [x], c), lambda s: NONE)


@m(OPT + "::filter")
def _(I, st, a, c):
    def f(s, x):
        p = mk_bv(callf(I, s, a[1], [I.models.tmp(I, s, x)], c))
        return ite(p, some(x), NONE)
    return opt(I, st, a[0], f, lambda s: NONE)


@m(OPT + "::unwrap_or")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: x, lambda s: a[1])


@m(OPT + "::unwrap_or_else")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: x, lambda s: callf(I, s, a[1], [], c))


@m(OPT + "::unwrap_or_default")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: x, lambda s: default_of(c["ret"]))


@m(OPT + "::map_or")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: callf(I, s, a[2], [x], c), lambda s: a[1])


@m(OPT + "::map_or_else")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: callf(I, s, a[2], [x], c), lambda s: callf(I, s, a[1], [], c))


@m(OPT + "::is_some_and")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: mk_bv(callf(I, s, a[1], [x], c)), lambda s: FALSE)


@m(OPT + "::is_none_or")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: mk_bv(callf(I, s, a[1], [x], c)), lambda s: TRUE)


@m(OPT + "::ok_or")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: ok(x), lambda s: err(a[1]))


@m(OPT + "::ok_or_else")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: ok(x), lambda s: err(callf(I, s, a[1], [], c)))


@m(OPT + "::or")
def _(I, st, a, c):
    return ite(is_variant(a[0], 1, OPT), a[0], a[1])


@m(OPT + "::or_else")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: some(x), lambda s: callf(I, s, a[1], [], c))


@m(OPT + "::and")
def _(I, st, a, c):
    return ite(is_variant(a[0], 1, OPT), a[1], NONE)


@m(OPT + "::as_ref", OPT + "::as_mut", OPT + "::as_deref", OPT + "::as_deref_mut")
def _(I, st, a, c):
    v = I.load(st, a[0])
    p = extend(a[0], raw("pv", 1, "0"))
    if "deref" in c["name"]:
        raise Unknown("as_deref")
    return ite(is_variant(v, 1, OPT), some(p), NONE)


@m(OPT + "::copied", OPT + "::cloned")
def _(I, st, a, c):
    return opt(I, st, a[0], lambda s, x: some(I.load(s, x)), lambda s: NONE)


@m(OPT + "::take")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], NONE)
    return v


@m(OPT + "::replace")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], some(a[1]))
    return v


@m(OPT + "::zip")
def _(I, st, a, c):
    return ite(band(is_variant(a[0], 1, OPT), is_variant(a[1], 1, OPT)), some(tup(vfld(a[0], 1, "0"), vfld(a[1], 1, "0"))), NONE)


@m(OPT + "::xor")
def _(I, st, a, c):
    p, q = is_variant(a[0], 1, OPT), is_variant(a[1], 1, OPT)
    return ite(band(p, bnot(q)), a[0], ite(band(q, bnot(p)), a[1], NONE))


@m(OPT + "::flatten")
def _(I, st, a, c):
    return ite(is_variant(a[0], 1, OPT), vfld(a[0], 1, "0"), NONE)


@m(OPT + "::transpose")
def _(I, st, a, c):
    r = vfld(a[0], 1, "0")
    return ite(is_variant(a[0], 1, OPT), ite(is_variant(r, 0, RES), ok(some(vfld(r, 0, "0"))), err(vfld(r, 1, "0"))), ok(NONE))


@m(RES + "::transpose")
def _(I, st, a, c):
    r = vfld(a[0], 0, "0")
    return ite(is_variant(a[0], 0, RES), ite(is_variant(r, 1, OPT), some(ok(vfld(r, 1, "0"))), NONE), some(err(vfld(a[0], 1, "0"))))


@m(OPT + "::insert")
def _(I, st, a, c):
    I.store(st, a[0], some(a[1]))
    return extend(a[0], raw("pv", 1, "0"))


@m(OPT + "::get_or_insert", OPT + "::get_or_insert_with", OPT + "::get_or_insert_default")
def _(I, st, a, c):
    v = I.load(st, a[0])

    def none(s):
        x = a[1] if c["name"] == "get_or_insert" else callf(I, s, a[1], [], c)
        I.store(s, a[0], some(x))
        return UNIT

    if c["name"].endswith("default"):
        raise Unknown("get_or_insert_default")
    I.branch(st, is_variant(v, 1, OPT), lambda s: UNIT, none)
    return extend(a[0], raw("pv", 1, "0"))


@m(RES + "::unwrap_or_default")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: x, lambda s, e: default_of(c["ret"]))


@m(RES + "::or_else")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: ok(x), lambda s, e: callf(I, s, a[1], [e], c))


@m(RES + "::map_or")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: callf(I, s, a[2], [x], c), lambda s, e: a[1])


@m(RES + "::map_or_else")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: callf(I, s, a[2], [x], c), lambda s, e: callf(I, s, a[1], [e], c))


@m(RES + "::is_ok_and")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: mk_bv(callf(I, s, a[1], [x], c)), lambda s, e: FALSE)


@m(RES + "::is_err_and")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: FALSE, lambda s, e: mk_bv(callf(I, s, a[1], [e], c)))


@m(RES + "::err")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: NONE, lambda s, e: some(e))


@m("std::bool::then", "core::bool::then")
def _(I, st, a, c):
    return I.branch(st, mk_bv(a[0]), lambda s: some(callf(I, s, a[1], [], c)), lambda s: NONE)


@m("std::bool::then_some", "core::bool::then_some")
def _(I, st, a, c):
    return ite(mk_bv(a[0]), some(a[1]), NONE)


@m(RES + "::ok")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: some(x), lambda s, e: NONE)


@m(RES + "::map")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: ok(callf(I, s, a[1], [x], c)), lambda s, e: err(e))


@m(RES + "::map_err")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: ok(x), lambda s, e: err(callf(I, s, a[1], [e], c)))


@m(RES + "::and_then")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: callf(I, s, a[1], [x], c), lambda s, e: err(e))


@m(RES + "::unwrap_or")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: x, lambda s, e: a[1])


@m(RES + "::unwrap_or_else")
def _(I, st, a, c):
    return res(I, st, a[0], lambda s, x: x, lambda s, e: callf(I, s, a[1], [e], c))


@t("std::ops::Try", "branch")
def _(I, st, a, c):
    ty = c["targs"][0]
    if ty[1] == OPT:
        return ite(is_variant(a[0], 1, OPT), adt(CF, 0, [("0", vfld(a[0], 1, "0"))]), adt(CF, 1, [("0", NONE)]))
    if ty[1] == RES:
        return ite(is_variant(a[0], 0, RES), adt(CF, 0, [("0", vfld(a[0], 0, "0"))]), adt(CF, 1, [("0", err(vfld(a[0], 1, "0")))]))
    raise Unknown("Try")


@t("std::ops::Try", "from_output")
def _(I, st, a, c):
    ty = c["targs"][0]
    return some(a[0]) if ty[1] == OPT else ok(a[0])


@t("std::ops::FromResidual", "from_residual")
def _(I, st, a, c):
    ty = c["targs"][0]
    if ty[1] == OPT:
        return NONE
    e = vfld(a[0], 1, "0")
    et = ty[2][1] if len(ty[2]) > 1 else None
    if et is not None and et[0] == "adt" and et[1].endswith("anyhow::Error"):
        e = ANYERR
    return err(e)


@t("anyhow::Context", "context", "with_context")
def _(I, st, a, c):
    ty = c["atys"][0]
    if ty[1] == OPT:
        return ite(is_variant(a[0], 1, OPT), ok(vfld(a[0], 1, "0")), err(ANYERR))
    return ite(is_variant(a[0], 0, RES), ok(vfld(a[0], 0, "0")), err(ANYERR))


@m("anyhow::__private::format_err", "anyhow::error::msg", "anyhow::Error::msg", "anyhow::Error::new", "anyhow::error::new")
def _(I, st, a, c):
    return ANYERR


@m("anyhow::__private::must_use", "std::hint::must_use", "std::hint::black_box", "std::convert::identity")
def _(I, st, a, c):
    return a[0]


# ---------------------------------------------------------------- comparison
def norm_ty(ty):
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    return ty


def value_eq(I, st, x, y, ty):
    if ty is not None and is_float(ty):
        return feq(x, y)
    x = I.canon_val(st, x)
    y = I.canon_val(st, y)
    d = dims(ty)
    if d is not None and d[0] * d[1] <= 16:
        r = TRUE
        for i in range(d[0] * d[1]):
            r = band(r, feq(idx(x, num(i)), idx(y, num(i))))
        return r
    return deq(x, y)


@t("std::cmp::PartialEq", "eq", "ne")
def _(I, st, a, c):
    ty = ("ref", False, c["targs"][0])
    x, tx = content(I, st, a[0], ty)
    ty2 = ("ref", False, c["targs"][1]) if len(c["targs"]) > 1 else ty
    y, _ = content(I, st, a[1], ty2)
    r = value_eq(I, st, x, y, tx)
    return r if c["name"] == "eq" else bnot(r)


@t("std::cmp::PartialOrd", "lt", "le", "gt", "ge")
def _(I, st, a, c):
    ty = ("ref", False, c["targs"][0])
    x, tx = content(I, st, a[0], ty)
    y, _ = content(I, st, a[1], ty)
    n = c["name"]
    if tx is not None and is_int(tx):
        return {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[n]
    if tx is not None and (is_float(tx) or tx[0] == "param" or tx[0] == "alias"):
        return {"lt": flt(x, y), "le": fle(x, y), "gt": flt(y, x), "ge": fle(y, x)}[n]
    x = I.canon_val(st, x)
    y = I.canon_val(st, y)
    return {"lt": lambda: lift(lambda p, q: raw("bv", raw("ord<", p, q)), x, y), "le": lambda: lift(lambda p, q: raw("bv", raw("ord<=", p, q)), x, y), "gt": lambda: lift(lambda p, q: raw("bv", raw("ord<", q, p)), x, y), "ge": lambda: lift(lambda p, q: raw("bv", raw("ord<=", q, p)), x, y)}[n]()


@t("std::cmp::PartialOrd", "partial_cmp")
def _(I, st, a, c):
    ty = ("ref", False, c["targs"][0])
    x, tx = content(I, st, a[0], ty)
    y, _ = content(I, st, a[1], ty)
    if tx is not None and is_int(tx):
        return some(ordering(x, y))
    return lift(lambda p, q: raw("pcmp", p, q), x, y)


@t("std::cmp::Ord", "cmp")
def _(I, st, a, c):
    ty = ("ref", False, c["targs"][0])
    x, tx = content(I, st, a[0], ty)
    y, _ = content(I, st, a[1], ty)
    if tx is not None and is_int(tx):
        return ordering(x, y)
    x, y = I.canon_val(st, x), I.canon_val(st, y)
    return lift(lambda p, q: raw("cmp", p, q), x, y)


def _mmax(op):
    def f(I, st, a, c):
        ty = c["targs"][0]
        if is_int(ty):
            return mk_max(a[0], a[1]) if op == "max" else mk_min(a[0], a[1])
        x, y = I.canon_val(st, a[0]), I.canon_val(st, a[1])
        return lift(lambda p, q: raw("call", "Ord::" + op, p, q), x, y)
    return f


INH["std::cmp::max"] = _mmax("max")
INH["std::cmp::min"] = _mmax("min")
TRAIT[("std::cmp::Ord", "max")] = _mmax("max")
TRAIT[("std::cmp::Ord", "min")] = _mmax("min")


@t("std::cmp::Ord", "clamp")
def _(I, st, a, c):
    if is_int(c["targs"][0]):
        return mk_min(mk_max(a[0], a[1]), a[2])
    raise Unknown("clamp")


@m("std::cmp::Ordering::reverse")
def _(I, st, a, c):
    def f(x):
        if x.op == "adt":
            return adt(ORD, 2 - x.a[1], [])
        if x.op in ("cmp",):
            return raw("cmp", x.a[1], x.a[0])
        return raw("call", "Ordering::reverse", x)
    return lift1(f, a[0])


@m("std::cmp::Ordering::then")
def _(I, st, a, c):
    return ite(is_variant(a[0], 1, ORD), a[1], a[0])


@m("std::cmp::Ordering::then_with")
def _(I, st, a, c):
    return I.branch(st, is_variant(a[0], 1, ORD), lambda s: callf(I, s, a[1], [], c), lambda s: a[0])


@m("std::cmp::Ordering::is_lt", "std::cmp::Ordering::is_le", "std::cmp::Ordering::is_gt", "std::cmp::Ordering::is_ge", "std::cmp::Ordering::is_eq", "std::cmp::Ordering::is_ne")
def _(I, st, a, c):
    n = c["name"]
    v = a[0]
    i = lambda k: is_variant(v, k, ORD)
    return {"is_lt": i(0), "is_le": bnot(i(2)), "is_gt": i(2), "is_ge": bnot(i(0)), "is_eq": i(1), "is_ne": bnot(i(1))}[n]


# ---------------------------------------------------------------- clone / default / conversions
@t("std::clone::Clone", "clone")
def _(I, st, a, c):
    return I.load(st, a[0], c["targs"][0])


@t("std::clone::Clone", "clone_from")
def _(I, st, a, c):
    I.store(st, a[0], I.load(st, a[1]))
    return UNIT


@t("std::borrow::ToOwned", "to_owned")
def _(I, st, a, c):
    return I.load(st, a[0])


def default_of(ty):
    if ty is None:
        return unk("default")
    if is_int(ty):
        return ZERO
    if is_float(ty):
        return raw("fc", "0.0")
    if ty == ("prim", "bool"):
        return FALSE
    if ty[0] == "adt":
        if ty[1] == OPT:
            return NONE
        if ty[1] == "std::vec::Vec":
            return raw("arr")
        if ty[1].endswith("HashMap"):
            return raw("mapnew")
    if ty[0] == "tuple":
        return tup(*[default_of(x) for x in ty[1]])
    d = dims(ty)
    if d:
        return raw("arr", *[default_of(ty[2][0]) for _ in range(d[0] * d[1])])
    return raw("default", ty_str(ty))


@t("std::default::Default", "default")
def _(I, st, a, c):
    return default_of(c["targs"][0])


@t("std::convert::Into", "into")
def _(I, st, a, c):
    return conv(I, st, a[0], c["targs"][0], c["targs"][1])


@t("std::convert::From", "from")
def _(I, st, a, c):
    return conv(I, st, a[0], c["targs"][1], c["targs"][0])


def int_range(name):
    n = 64 if name in ("usize", "isize") else int(name[1:])
    return (0, 2 ** n - 1) if name[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def try_conv(I, st, v, f, tt):
    if f == tt:
        return ok(v)
    if is_int(f) and is_int(tt):
        lo, hi = int_range(tt[1])
        return ite(band(le(num(lo), v), le(v, num(hi))), ok(v), err(raw("tryfrom")))
    if f[0] == "ref" and f[2][0] in ("slice", "array"):
        n = array_len(tt if tt[0] == "array" else tt[2] if tt[0] == "ref" else None)
        if n is not None:
            x = I.load(st, v)
            return ite(eq(slen(x), num(n)), ok(v if tt[0] == "ref" else x), err(raw("tryfrom")))
    raise Unknown("try_from " + ty_str(tt))


@t("std::convert::TryInto", "try_into")
def _(I, st, a, c):
    return try_conv(I, st, a[0], c["targs"][0], c["targs"][1])


@t("std::convert::TryFrom", "try_from")
def _(I, st, a, c):
    return try_conv(I, st, a[0], c["targs"][1], c["targs"][0])


def conv(I, st, v, f, tt):
    if f == tt:
        return v
    if tt[0] == "adt" and tt[1].endswith("anyhow::Error"):
        return ANYERR
    if f[0] == "prim" and tt[0] == "prim":
        if is_int(f) and is_int(tt):
            return I.cast(st, "IntToInt", v, f, tt)
        if is_int(f) and is_float(tt):
            return I.cast(st, "IntToFloat", v, f, tt)
        if is_float(f) and is_float(tt):
            return I.cast(st, "FloatToFloat", v, f, tt)
        if f == ("prim", "bool"):
            return ite(mk_bv(v), ONE, ZERO)
    if (f[0] == "array" and dims(tt)) or (dims(f) and tt[0] == "array") or (dims(f) and dims(tt) and dims(f) == dims(tt)):
        return v
    if tt[0] == "adt" and tt[1] == OPT:
        return some(v)
    r = I.resolve("", "", "std::convert::From", "from", [tt, f])
    if r is not None:
        return I.run_fn(r[0], [v], st, r[1], "conv", 9)
    if tt[0] == "adt" and tt[1] in ("std::string::String", "std::borrow::Cow"):
        return v
    if tt[0] == "adt" and tt[1] == "std::boxed::Box":
        raise Unknown("into box")
    return lift1(lambda x: raw("into", x, ty_str(f), ty_str(tt)), I.canon_val(st, v))


@t("num_traits::AsPrimitive", "as_")
def _(I, st, a, c):
    f, tt = c["targs"][0], c["targs"][1]
    return prim_as(I, st, a[0], f, tt)


def prim_as(I, st, v, f, tt):
    if f == tt:
        return v
    if f[0] == "prim" and tt[0] == "prim":
        k = ("Int" if not is_float(f) else "Float") + "To" + ("Int" if not is_float(tt) else "Float")
        return I.cast(st, k, v, f, tt)
    return lift1(lambda x: raw("as", x, ty_str(f), ty_str(tt)), v)


# ---------------------------------------------------------------- Deref, Index
def base_ptr(I, st, v):
    return v


@t("std::ops::Deref", "deref")
def _(I, st, a, c):
    return deref(I, st, a[0], c["targs"][0])


@t("std::ops::DerefMut", "deref_mut")
def _(I, st, a, c):
    return deref(I, st, a[0], c["targs"][0])


def deref(I, st, v, ty):
    if ty[0] == "adt":
        p = ty[1]
        if p in ("std::vec::Vec", "std::string::String"):
            return v
        if p in ("std::boxed::Box", "std::cell::Ref", "std::cell::RefMut", "std::rc::Rc", "std::sync::Arc"):
            return I.load(st, v)
        if dims(ty) or "nalgebra" in p:
            return v
        if p.endswith("ManuallyDrop"):
            return v
        if p.endswith("Cow"):
            return v
    if ty[0] == "ref":
        return I.load(st, v)
    raise Unknown("deref " + ty_str(ty))


@t("std::convert::AsRef", "as_ref")
def _(I, st, a, c):
    return asref(I, st, a[0], c["targs"][0])


@t("std::convert::AsMut", "as_mut")
def _(I, st, a, c):
    return asref(I, st, a[0], c["targs"][0])


def asref(I, st, v, ty):
    if ty[0] in ("slice", "array") or (ty[0] == "adt" and ty[1] in ("std::vec::Vec", "std::string::String")) or dims(ty):
        return v
    if ty[0] == "prim" and ty[1] == "str":
        return v
    if ty[0] == "ref":
        return asref(I, st, I.load(st, v), ty[2])
    return extend(v, raw("pf", "as_slice"))


@t("std::borrow::Borrow", "borrow")
def _(I, st, a, c):
    return asref(I, st, a[0], c["targs"][0])


@m("std::boxed::Box::as_ref", "std::boxed::Box::as_mut")
def _(I, st, a, c):
    return I.load(st, a[0])


def index_ptr(I, st, ptr, i, ity, n, c):
    """Address of container[i]."""
    if ity is not None and ity[0] == "adt":
        p = ity[1].split("::")[-1]
        if p == "Range":
            lo, hi = fld(i, "start"), fld(i, "end")
        elif p == "RangeFrom":
            lo, hi = fld(i, "start"), n
        elif p == "RangeTo":
            lo, hi = ZERO, fld(i, "end")
        elif p == "RangeFull":
            return ptr
        elif p == "RangeInclusive":
            lo, hi = fld(i, "start"), add(fld(i, "end"), ONE)
        elif p == "RangeToInclusive":
            lo, hi = ZERO, add(fld(i, "end"), ONE)
        else:
            raise Unknown("index by " + p)
        if I.hooks:
            I.hooks.on_bounds(I, st, c, "range", lo, hi, n)
        I.assume(st, le(lo, hi))
        I.assume(st, le(hi, n))
        return extend_lift(ptr, "S", lo, sub(hi, lo))
    if ity is not None and ity[0] == "tuple":
        return extend_lift(ptr, "I2", fld(i, "0"), fld(i, "1"))
    if I.hooks:
        I.hooks.on_bounds(I, st, c, "index", i, None, n)
    I.assume(st, lt(i, n))
    return extend_lift(ptr, "I", i)


@t("std::ops::Index", "index")
def _(I, st, a, c):
    return do_index(I, st, a, c)


@t("std::ops::IndexMut", "index_mut")
def _(I, st, a, c):
    return do_index(I, st, a, c)


def do_index(I, st, a, c):
    ty = c["targs"][0]
    ity = c["targs"][1] if len(c["targs"]) > 1 else c["atys"][1]
    if ty[0] == "adt" and ty[1].endswith("HashMap"):
        k = I.canon_arg(st, a[1], ity)
        I.assume(st, maphas(I.load(st, a[0]), k))
        return extend_lift(a[0], "K", k)
    if ty[0] in ("slice", "array") or (ty[0] == "adt" and ty[1] == "std::vec::Vec"):
        return index_ptr(I, st, a[0], a[1], ity, slen(I.load(st, a[0])), c)
    d = dims(ty)
    if d:
        v = I.load(st, a[0])
        if v.op == "rowview":
            i = fld(a[1], "1") if ity is not None and ity[0] == "tuple" else a[1]
            return extend_lift(v.a[0], "I", add(v.a[1], mul(i, v.a[2])))
    if d or (ty[0] == "adt" and "nalgebra" in ty[1]):
        if ity is not None and ity[0] == "tuple":
            r, cc = fld(a[1], "0"), fld(a[1], "1")
            if d:
                return extend_lift(a[0], "I", add(r, mul(cc, num(d[0]))))
            return extend_lift(a[0], "I", lift(lambda x, y: raw("rc", x, y), r, cc))
        return extend_lift(a[0], "I", a[1])
    raise Unknown("index " + ty_str(ty))


@m("std::slice::get", "std::slice::get_mut")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    ity = c["atys"][1]
    if is_int(ity):
        return ite(lt(a[1], n), some(extend_lift(a[0], "I", a[1])), NONE)
    p = ity[1].split("::")[-1]
    if p == "Range":
        lo, hi = fld(a[1], "start"), fld(a[1], "end")
    elif p == "RangeFrom":
        lo, hi = fld(a[1], "start"), n
    elif p == "RangeTo":
        lo, hi = ZERO, fld(a[1], "end")
    else:
        raise Unknown("get range")
    return ite(band(le(lo, hi), le(hi, n)), some(extend_lift(a[0], "S", lo, sub(hi, lo))), NONE)


@m("std::slice::get_unchecked", "std::slice::get_unchecked_mut")
def _(I, st, a, c):
    ity = c["atys"][1]
    if is_int(ity):
        return extend_lift(a[0], "I", a[1])
    p = ity[1].split("::")[-1]
    if p == "Range":
        lo, hi = fld(a[1], "start"), fld(a[1], "end")
        return extend_lift(a[0], "S", lo, sub(hi, lo))
    raise Unknown("get_unchecked")


# ---------------------------------------------------------------- Vec / slice
@m("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def _(I, st, a, c):
    return raw("arr")


@m("std::vec::from_elem")
def _(I, st, a, c):
    return lift(lambda v, n: raw("rep", v, n), a[0], a[1])


@m("std::vec::Vec::len", "std::slice::len", "std::str::len", "std::string::String::len")
def _(I, st, a, c):
    return slen(I.load(st, a[0]))


@m("std::vec::Vec::is_empty", "std::slice::is_empty", "std::str::is_empty")
def _(I, st, a, c):
    return eq(slen(I.load(st, a[0])), ZERO)


@m("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::vec::Vec::reserve_exact", "std::collections::HashMap::reserve")
def _(I, st, a, c):
    return UNIT


@m("std::vec::Vec::push")
def _(I, st, a, c):
    I.store(st, a[0], cat(I.load(st, a[0]), raw("arr", a[1])))
    return UNIT


@m("std::vec::Vec::pop")
def _(I, st, a, c):
    v = I.load(st, a[0])
    n = slen(v)
    e = eq(n, ZERO)
    I.store(st, a[0], ite(e, v, ssub(v, ZERO, sub(n, ONE))))
    return ite(e, NONE, some(idx(v, sub(n, ONE))))


@m("std::vec::Vec::extend_from_slice")
def _(I, st, a, c):
    I.store(st, a[0], cat(I.load(st, a[0]), I.load(st, a[1])))
    return UNIT


@m("std::vec::Vec::append")
def _(I, st, a, c):
    I.store(st, a[0], cat(I.load(st, a[0]), I.load(st, a[1])))
    I.store(st, a[1], raw("arr"))
    return UNIT


@m("std::vec::Vec::resize")
def _(I, st, a, c):
    I.store(st, a[0], resize(I.load(st, a[0]), a[1], a[2]))
    return UNIT


@m("std::vec::Vec::clear")
def _(I, st, a, c):
    I.store(st, a[0], raw("arr"))
    return UNIT


@m("std::vec::Vec::truncate")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], ssub(v, ZERO, mk_min(a[1], slen(v))))
    return UNIT


@m("std::vec::Vec::insert")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.assume(st, le(a[1], slen(v)))
    I.store(st, a[0], cat(cat(ssub(v, ZERO, a[1]), raw("arr", a[2])), ssub(v, a[1], sub(slen(v), a[1]))))
    return UNIT


@m("std::vec::Vec::remove")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.assume(st, lt(a[1], slen(v)))
    i1 = add(a[1], ONE)
    I.store(st, a[0], cat(ssub(v, ZERO, a[1]), ssub(v, i1, sub(slen(v), i1))))
    return idx(v, a[1])


@m("std::vec::Vec::swap_remove")
def _(I, st, a, c):
    v = I.load(st, a[0])
    n1 = sub(slen(v), ONE)
    I.assume(st, lt(a[1], slen(v)))
    x, y = idx(v, a[1]), idx(v, n1)
    I.store(st, extend_lift(a[0], "I", a[1]), y)
    I.store(st, a[0], ssub(I.load(st, a[0]), ZERO, n1))
    return x


@m("std::vec::Vec::split_off")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.assume(st, le(a[1], slen(v)))
    I.store(st, a[0], ssub(v, ZERO, a[1]))
    return ssub(v, a[1], sub(slen(v), a[1]))


@m("std::vec::Vec::drain")
def _(I, st, a, c):
    v = I.load(st, a[0])
    n = slen(v)
    w = index_ptr(I, st, a[0], a[1], c["atys"][1], n, c)
    if w is a[0]:
        I.store(st, a[0], raw("arr"))
        return it(spec("owned", v))
    x = I.load(st, w)
    lo = range_start(a[1], c["atys"][1])
    hi = add(lo, slen(x))
    I.store(st, a[0], cat(ssub(v, ZERO, lo), ssub(v, hi, sub(n, hi))))
    return it(spec("owned", x))


def range_start(r, ty):
    return fld(r, "start") if ty[1].split("::")[-1] in ("Range", "RangeFrom", "RangeInclusive") else ZERO


@m("std::vec::Vec::retain", "std::vec::Vec::retain_mut")
def _(I, st, a, c):
    v = I.load(st, a[0])
    s = spec("filter", spec("owned", v), a[1])
    if c["name"] == "retain_mut":
        raise Unknown("retain_mut")
    I.store(st, a[0], collect_vec(I, st, s, c))
    return UNIT


@m("std::vec::Vec::resize_with")
def _(I, st, a, c):
    v = I.load(st, a[0])
    x = callf(I, st, a[2], [], c)
    I.store(st, a[0], resize(v, a[1], x))
    return UNIT


@m("std::vec::Vec::extend_from_within")
def _(I, st, a, c):
    v = I.load(st, a[0])
    w = I.load(st, index_ptr(I, st, a[0], a[1], c["atys"][1], slen(v), c))
    I.store(st, a[0], cat(v, w))
    return UNIT


@m("std::slice::starts_with", "std::slice::ends_with")
def _(I, st, a, c):
    v, w = I.load(st, a[0]), I.load(st, a[1])
    n, k = slen(v), slen(w)
    part = ssub(v, ZERO if c["name"] == "starts_with" else sub(n, k), k)
    return I.branch(st, le(k, n), lambda s: value_eq(I, s, part, w, c["atys"][1][2]), lambda s: FALSE)


@m("std::slice::split_first", "std::slice::split_first_mut", "std::slice::split_last", "std::slice::split_last_mut")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    n1 = sub(n, ONE)
    if "first" in c["name"]:
        r = tup(extend_lift(a[0], "I", ZERO), extend_lift(a[0], "S", ONE, n1))
    else:
        r = tup(extend_lift(a[0], "I", n1), extend_lift(a[0], "S", ZERO, n1))
    return ite(eq(n, ZERO), NONE, some(r))


@m("std::slice::split_at_checked", "std::slice::split_at_mut_checked")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    return ite(le(a[1], n), some(tup(extend_lift(a[0], "S", ZERO, a[1]), extend_lift(a[0], "S", a[1], sub(n, a[1])))), NONE)


@m("std::slice::rotate_left", "std::slice::rotate_right")
def _(I, st, a, c):
    v = I.load(st, a[0])
    n = slen(v)
    I.assume(st, le(a[1], n))
    k = a[1] if c["name"] == "rotate_left" else sub(n, a[1])
    I.store(st, a[0], cat(ssub(v, k, sub(n, k)), ssub(v, ZERO, k)))
    return UNIT


@m("std::slice::fill_with")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    x = callf(I, st, a[1], [], c)
    I.store(st, a[0], lift(lambda v, k: raw("rep", v, k), x, n))
    return UNIT


@m("std::array::map")
def _(I, st, a, c):
    v = I.canon_val(st, a[0])
    if v.op != "arr":
        n = c["atys"][0]
        k = array_len(n)
        if k is None or k > 16:
            raise Unknown("array map")
        v = raw("arr", *[idx(a[0], num(i)) for i in range(k)])
    return raw("arr", *[callf(I, st, a[1], [x], c) for x in v.a])


@m("std::array::from_fn")
def _(I, st, a, c):
    k = array_len(c["ret"])
    if k is None or k > 16:
        raise Unknown("array from_fn")
    return raw("arr", *[callf(I, st, a[0], [num(i)], c) for i in range(k)])


def array_len(ty):
    if ty is not None and ty[0] == "array":
        for x in ty[2:]:
            if isinstance(x, int):
                return x
            if isinstance(x, str) and x.split("_")[0].isdigit():
                return int(x.split("_")[0])
    return None


@m("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::slice::as_mut", "std::str::as_bytes", "std::string::String::as_str", "std::array::as_slice", "std::array::as_mut_slice", "std::vec::Vec::into_boxed_slice", "std::string::String::as_bytes")
def _(I, st, a, c):
    return a[0]


@m("std::vec::Vec::as_ptr", "std::vec::Vec::as_mut_ptr", "std::slice::as_ptr", "std::slice::as_mut_ptr")
def _(I, st, a, c):
    return extend(a[0], raw("P", ZERO))


@m("std::slice::into_vec", "std::slice::to_vec")
def _(I, st, a, c):
    return I.load(st, a[0])


@m("std::boxed::box_assume_init_into_vec_unsafe")
def _(I, st, a, c):
    return I.load(st, a[0])


@m("std::boxed::Box::new_uninit")
def _(I, st, a, c):
    cell = raw("heap", c["site"])
    st.cells[cell] = unk("uninit")
    return ref(cell)


@m("std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new")
def _(I, st, a, c):
    cell = raw("heap", c["site"])
    st.cells[cell] = a[0]
    return ref(cell)


@m("std::slice::iter", "std::slice::iter_mut")
def _(I, st, a, c):
    return it(spec("slice", a[0], slen(I.load(st, a[0]))))


@m("std::slice::copy_from_slice", "std::slice::clone_from_slice")
def _(I, st, a, c):
    d = I.load(st, a[0])
    s = I.load(st, a[1])
    if I.hooks:
        I.hooks.on_copy(I, st, c, slen(d), slen(s))
    I.assume(st, eq(slen(d), slen(s)))
    I.store(st, a[0], s)
    return UNIT


@m("std::slice::swap_with_slice")
def _(I, st, a, c):
    d = I.load(st, a[0])
    s = I.load(st, a[1])
    I.assume(st, eq(slen(d), slen(s)))
    I.store(st, a[0], s)
    I.store(st, a[1], d)
    return UNIT


@m("std::slice::copy_within")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    src = index_ptr(I, st, a[0], a[1], c["atys"][1], n, c)
    v = I.load(st, src)
    I.assume(st, le(add(a[2], slen(v)), n))
    I.store(st, extend_lift(a[0], "S", a[2], slen(v)), v)
    return UNIT


@m("std::slice::fill")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    I.store(st, a[0], lift(lambda v, k: raw("rep", v, k), a[1], n))
    return UNIT


@m("std::slice::chunks_exact", "std::slice::chunks_exact_mut", "std::slice::chunks", "std::slice::chunks_mut")
def _(I, st, a, c):
    I.assume(st, bnot(eq(a[1], ZERO)))
    k = "chunks_exact" if "exact" in c["path"] else "chunks"
    return it(spec(k, a[0], slen(I.load(st, a[0])), a[1]))


@m("std::slice::windows")
def _(I, st, a, c):
    return it(spec("windows", a[0], slen(I.load(st, a[0])), a[1]))


@m("std::slice::split_at", "std::slice::split_at_mut")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    I.assume(st, le(a[1], n))
    return tup(extend_lift(a[0], "S", ZERO, a[1]), extend_lift(a[0], "S", a[1], sub(n, a[1])))


@m("std::slice::first", "std::slice::first_mut")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    return ite(eq(n, ZERO), NONE, some(extend_lift(a[0], "I", ZERO)))


@m("std::slice::last", "std::slice::last_mut")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    return ite(eq(n, ZERO), NONE, some(extend_lift(a[0], "I", sub(n, ONE))))


@m("std::slice::swap")
def _(I, st, a, c):
    n = slen(I.load(st, a[0]))
    I.assume(st, lt(a[1], n))
    I.assume(st, lt(a[2], n))
    p, q = extend_lift(a[0], "I", a[1]), extend_lift(a[0], "I", a[2])
    x, y = I.load(st, p), I.load(st, q)
    I.store(st, p, y)
    I.store(st, q, x)
    return UNIT


@m("std::slice::reverse")
def _(I, st, a, c):
    v = I.load(st, a[0])
    I.store(st, a[0], lift1(lambda x: raw("arr", *reversed(x.a)) if x.op == "arr" else raw("reversed", x), v))
    return UNIT


@m("std::slice::sort", "std::slice::sort_by", "std::slice::sort_by_key", "std::slice::sort_unstable", "std::slice::sort_unstable_by", "std::slice::sort_unstable_by_key")
def _(I, st, a, c):
    v = I.canon_val(st, I.load(st, a[0]))
    stable = "" if "unstable" in c["path"] else ""
    if len(a) == 1:
        cmpf = raw("lam", raw("cmp", raw("*", raw("lp", 0)), raw("*", raw("lp", 1))))
        cmpf = raw("lam", raw("key", raw("*", raw("lp", 0))))
    else:
        cmpf = I.canon_val(st, a[1])
        if "by_key" not in c["path"]:
            b = cmpf.a[0] if cmpf.op == "lam" else None
            # sort_by(|a,b| f(a).cmp(f(b))) is sort_by_key(f)
            if b is not None and b.op == "cmp":
                x, y = b.a
                x2 = subst(x, {raw("lp", 0): raw("lp", 1)})
                if x2 is y:
                    cmpf = raw("lam", raw("key", x))
            elif b is not None:
                # integer comparison spelled as an ordering
                x = ord_key(b)
                if x is not None:
                    cmpf = raw("lam", raw("key", x))
        elif cmpf.op == "lam":
            cmpf = raw("lam", raw("key", cmpf.a[0]))
    I.store(st, a[0], lift1(lambda x: raw("sorted", x, cmpf), v))
    return UNIT


def ord_key(b):
    """If b is ordering(f(lp0), f(lp1)) return f(lp0)."""
    for s in subterms(b):
        if s.op == "eq":
            x, y = s.a
            for p, q in ((x, y), (y, x)):
                if subst(p, {raw("lp", 0): raw("lp", 1)}) is q and ordering(p, q) is b:
                    return p
    return None


@m("std::slice::contains")
def _(I, st, a, c):
    v = I.load(st, a[0])
    n = slen(v)
    x = I.canon_arg(st, a[1])
    s = get_spec(I, st, it(spec("slice", a[0], n)))

    def body(s2, p):
        return deq(I.canon_val(s2, I.load(s2, p)), x)

    return I.pseudo_loop(st, s, body)


@m("std::slice::concat")
def _(I, st, a, c):
    raise Unknown("concat")


# ---------------------------------------------------------------- ptr / mem
@m("std::ptr::swap_nonoverlapping")
def _(I, st, a, c):
    n = a[2]
    p = window(a[0], n)
    q = window(a[1], n)
    x, y = I.load(st, p), I.load(st, q)
    I.store(st, p, y)
    I.store(st, q, x)
    return UNIT


def window(p, n):
    def f(p, n):
        if p.op == "ref" and len(p.a) > 1 and p.a[-1].op == "P":
            return norm_ref(p.a[0], list(p.a[1:-1]) + [raw("S", p.a[-1].a[0], n)])
        if p.op == "ref" and len(p.a) > 1 and p.a[-1].op == "PT":
            return unk("typed window")
        if n is ONE:
            return extend(p, raw("V"))
        return unk("window")
    return lift(f, p, n)


@m("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy")
def _(I, st, a, c):
    I.store(st, window(a[1], a[2]), I.load(st, window(a[0], a[2])))
    return UNIT


@m("std::ptr::swap", "std::mem::swap")
def _(I, st, a, c):
    x, y = I.load(st, a[0]), I.load(st, a[1])
    I.store(st, a[0], y)
    I.store(st, a[1], x)
    return UNIT


@m("std::mem::replace")
def _(I, st, a, c):
    x = I.load(st, a[0])
    I.store(st, a[0], a[1])
    return x


@m("std::mem::take")
def _(I, st, a, c):
    x = I.load(st, a[0])
    I.store(st, a[0], default_of(c["targs"][0]))
    return x


@m("std::mem::drop", "std::mem::forget")
def _(I, st, a, c):
    return UNIT


@m("std::mem::size_of", "std::mem::size_of_val")
def _(I, st, a, c):
    ty = c["targs"][0]
    if c["name"] == "size_of_val":
        if ty[0] == "slice":
            return mul(slen(I.load(st, a[0])), size_of(ty_str(ty[1])))
    return tysize(I, ty)


def tysize(I, ty):
    if ty[0] == "array" and isinstance(ty[2], int):
        return mul(num(ty[2]), tysize(I, ty[1]))
    d = dims(ty)
    if d and ty[0] == "adt":
        return mul(num(d[0] * d[1]), tysize(I, ty[2][0]))
    return size_of(ty_str(ty))


@m("std::mem::align_of")
def _(I, st, a, c):
    ty = c["targs"][0]
    base = ty
    if ty[0] == "array":
        base = ty[1]
    d = dims(ty)
    if d and ty[0] == "adt":
        base = ty[2][0]
    s = ty_str(base)
    if s in TM.SIZES:
        return num(TM.SIZES[s])
    r = raw("align_of", s)
    return r


@m("std::ptr::mut_ptr::add", "std::ptr::const_ptr::add", "std::ptr::mut_ptr::offset", "std::ptr::const_ptr::offset", "std::ptr::mut_ptr::wrapping_add", "std::ptr::const_ptr::wrapping_add")
def _(I, st, a, c):
    if I.hooks:
        I.hooks.on_ptr(I, st, c, a)
    return ptr_add(a[0], a[1])


@m("std::ptr::mut_ptr::sub", "std::ptr::const_ptr::sub")
def _(I, st, a, c):
    return ptr_add(a[0], neg(a[1]))


@m("std::ptr::mut_ptr::cast", "std::ptr::const_ptr::cast")
def _(I, st, a, c):
    f = ("ptr", True, c["targs"][0])
    return I.ptr_cast(a[0], f, ("ptr", True, c["targs"][-1]))


@m("std::ptr::mut_ptr::cast_const", "std::ptr::const_ptr::cast_mut", "std::ptr::from_ref", "std::ptr::from_mut")
def _(I, st, a, c):
    return a[0]


@m("std::ptr::mut_ptr::write_unaligned", "std::ptr::mut_ptr::write", "std::ptr::write", "std::ptr::write_unaligned")
def _(I, st, a, c):
    I.store(st, typed_ptr(a[0], c), a[1])
    return UNIT


def typed_ptr(p, c):
    return p


@m("std::ptr::mut_ptr::read_unaligned", "std::ptr::const_ptr::read_unaligned", "std::ptr::mut_ptr::read", "std::ptr::const_ptr::read", "std::ptr::read", "std::ptr::read_unaligned")
def _(I, st, a, c):
    return I.load(st, a[0], c["ret"])


@m("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut")
def _(I, st, a, c):
    return window(a[0], a[1])


@m("std::ptr::null_mut", "std::ptr::null")
def _(I, st, a, c):
    return raw("null")


@m("std::ptr::mut_ptr::is_null", "std::ptr::const_ptr::is_null")
def _(I, st, a, c):
    def f(p):
        if p.op == "null":
            return TRUE
        if p.op == "ref":
            return FALSE
        return raw("eq", raw("null"), p) if key(raw("null")) < key(p) else raw("eq", p, raw("null"))
    return lift1(f, a[0])


@m("std::mem::MaybeUninit::uninit")
def _(I, st, a, c):
    return raw("uninit", ty_str(c["targs"][0]))


@m("std::mem::MaybeUninit::zeroed", "std::mem::zeroed")
def _(I, st, a, c):
    return raw("zeroed", ty_str(c["targs"][0]))


@m("std::mem::MaybeUninit::new", "std::mem::MaybeUninit::assume_init", "std::mem::MaybeUninit::as_mut_ptr", "std::mem::MaybeUninit::as_ptr", "std::mem::MaybeUninit::assume_init_ref", "std::mem::MaybeUninit::assume_init_mut", "std::mem::ManuallyDrop::new", "std::cell::RefCell::new", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::borrow", "std::cell::Cell::new", "std::cell::RefCell::into_inner", "std::cell::RefCell::get_mut")
def _(I, st, a, c):
    return a[0]


@m("std::cell::Cell::get")
def _(I, st, a, c):
    return I.load(st, a[0])


@m("std::cell::Cell::set")
def _(I, st, a, c):
    I.store(st, a[0], a[1])
    return UNIT


@m("std::mem::MaybeUninit::write")
def _(I, st, a, c):
    I.store(st, a[0], a[1])
    return a[0]


@m("std::mem::transmute", "std::intrinsics::transmute")
def _(I, st, a, c):
    return I.cast(st, "Transmute", a[0], c["targs"][0], c["targs"][1])


# ---------------------------------------------------------------- bytemuck
@m("bytemuck::bytes_of", "bytemuck::bytes_of_mut")
def _(I, st, a, c):
    return extend(a[0], raw("B", ty_str(c["targs"][0])))


@m("bytemuck::from_bytes", "bytemuck::from_bytes_mut")
def _(I, st, a, c):
    s = tysize(I, c["targs"][0])
    I.assume(st, eq(slen(I.load(st, a[0])), s))
    return extend(a[0], raw("Tt", ty_str(c["targs"][0])))


@m("bytemuck::pod_read_unaligned")
def _(I, st, a, c):
    s = tysize(I, c["targs"][0])
    I.assume(st, eq(slen(I.load(st, a[0])), s))
    return frombytes(I.load(st, a[0]), ty_str(c["targs"][0]))


@m("bytemuck::cast_slice", "bytemuck::cast_slice_mut")
def _(I, st, a, c):
    x, y = c["targs"][0], c["targs"][1]
    sx, sy = tysize(I, x), tysize(I, y)
    if x == y:
        return a[0]
    return extend(a[0], raw("C", sx, sy, ty_str(x), ty_str(y)))


@m("bytemuck::try_cast_slice", "bytemuck::try_cast_slice_mut", "bytemuck::try_from_bytes", "bytemuck::try_from_bytes_mut")
def _(I, st, a, c):
    raise Unknown("try_cast")


@t("bytemuck::zeroable::Zeroable", "zeroed")
def _(I, st, a, c):
    ty = c["targs"][0]
    if is_int(ty):
        return ZERO
    return raw("zeroed", ty_str(ty))


# ---------------------------------------------------------------- HashMap
HM = "std::collections::HashMap"


@m(HM + "::new", HM + "::with_capacity")
def _(I, st, a, c):
    return raw("mapnew")


def kterm(I, st, k, c, i=1):
    return I.canon_arg(st, k, c["atys"][i])


@m(HM + "::get", HM + "::get_mut")
def _(I, st, a, c):
    k = kterm(I, st, a[1], c)
    h = maphas(I.load(st, a[0]), k)
    return ite(h, some(extend_lift(a[0], "K", k)), NONE)


@m(HM + "::contains_key")
def _(I, st, a, c):
    k = kterm(I, st, a[1], c)
    return maphas(I.load(st, a[0]), k)


@m(HM + "::insert")
def _(I, st, a, c):
    k = I.canon_val(st, a[1])
    mp = I.load(st, a[0])
    old = ite(maphas(mp, k), some(mapget(mp, k)), NONE)
    I.store(st, a[0], mapins(mp, k, a[2]))
    return old


@m(HM + "::iter", HM + "::iter_mut")
def _(I, st, a, c):
    return it(spec("mapiter", a[0], I.load(st, a[0]), "iter"))


@m(HM + "::values", HM + "::values_mut")
def _(I, st, a, c):
    return it(spec("mapiter", a[0], I.load(st, a[0]), "values"))


@m(HM + "::keys")
def _(I, st, a, c):
    return it(spec("mapiter", a[0], I.load(st, a[0]), "keys"))


@m(HM + "::into_values")
def _(I, st, a, c):
    cell = raw("tmpcell", a[0])
    st.cells[cell] = a[0]
    return it(spec("map", spec("mapiter", ref(cell), a[0], "values"), raw("lamload")))


@m(HM + "::len")
def _(I, st, a, c):
    return raw("maplen", TM.mapbase(I.load(st, a[0])))


@m(HM + "::is_empty")
def _(I, st, a, c):
    return eq(raw("maplen", TM.mapbase(I.load(st, a[0]))), ZERO)


@m(HM + "::clear")
def _(I, st, a, c):
    I.store(st, a[0], raw("mapnew"))
    return UNIT


@m(HM + "::entry")
def _(I, st, a, c):
    return raw("entry", a[0], I.canon_val(st, a[1]))


EN = "std::collections::hash_map::Entry"


def entry_default(c):
    ty = c["ret"]
    return default_of(ty[2] if ty is not None and ty[0] == "ref" else None)


@m(EN + "::or_insert", EN + "::or_insert_with", EN + "::or_default")
def _(I, st, a, c):
    e = a[0]
    if e.op != "entry":
        raise Unknown("entry")
    p, k = e.a
    mp = I.load(st, p)
    h = maphas(mp, k)

    def ins(s):
        v = a[1] if c["name"] == "or_insert" else (callf(I, s, a[1], [], c) if c["name"] == "or_insert_with" else entry_default(c))
        I.store(s, p, mapins(I.load(s, p), k, v))
        return UNIT

    I.branch(st, h, lambda s: UNIT, ins)
    return extend_lift(p, "K", k)


@m(EN + "::and_modify")
def _(I, st, a, c):
    e = a[0]
    if e.op != "entry":
        raise Unknown("entry")
    p, k = e.a
    I.branch(st, maphas(I.load(st, p), k), lambda s: callf(I, s, a[1], [extend_lift(p, "K", k)], c), lambda s: UNIT)
    return e


# sets: maps to ()
for _hs in ("std::collections::HashSet", "std::collections::BTreeSet"):
    INH[_hs + "::new"] = INH[_hs + "::with_capacity"] = lambda I, st, a, c: raw("mapnew")
    INH[_hs + "::contains"] = INH[HM + "::contains_key"]
    INH[_hs + "::len"] = INH[HM + "::len"]
    INH[_hs + "::is_empty"] = INH[HM + "::is_empty"]
    INH[_hs + "::clear"] = INH[HM + "::clear"]

    @m(_hs + "::insert")
    def _(I, st, a, c):
        k = I.canon_arg(st, a[1], c["atys"][1])
        mp = I.load(st, a[0])
        I.store(st, a[0], mapins(mp, k, UNIT))
        return bnot(maphas(mp, k))


# ---------------------------------------------------------------- numbers as bytes (x86-64 is little endian)
@m(*[f"std::{p}::{d}_{e}_bytes" for p in ("num", "f32", "f64", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize") for d in ("to", "from") for e in ("le", "ne")])
def _(I, st, a, c):
    w = re.search(r"<impl (\w+)>", c["path"])
    if not w:
        raise Unknown("bytes")
    w = w.group(1)
    if c["name"].startswith("to"):
        return lift1(lambda x: TM.tobytes(x, w), a[0])
    return frombytes(a[0], w)


# ---------------------------------------------------------------- ranges
@m("std::ops::RangeInclusive::new")
def _(I, st, a, c):
    return adt("std::ops::RangeInclusive", 0, [("start", a[0]), ("end", a[1]), ("exhausted", FALSE)])


@m("std::ops::RangeInclusive::start", "std::ops::RangeInclusive::end")
def _(I, st, a, c):
    return extend(a[0], raw("pf", c["name"]))


@m("std::ops::Range::contains")
def _(I, st, a, c):
    r = I.load(st, a[0])
    x = I.load(st, a[1])
    return band(le(fld(r, "start"), x), lt(x, fld(r, "end")))


@m("std::ops::RangeInclusive::contains")
def _(I, st, a, c):
    r = I.load(st, a[0])
    x = I.load(st, a[1])
    return band(le(fld(r, "start"), x), le(x, fld(r, "end")))


@m("std::ops::RangeFrom::contains")
def _(I, st, a, c):
    return le(fld(I.load(st, a[0]), "start"), I.load(st, a[1]))


@m("std::ops::RangeTo::contains")
def _(I, st, a, c):
    return lt(I.load(st, a[1]), fld(I.load(st, a[0]), "end"))


@m("std::ops::Range::is_empty")
def _(I, st, a, c):
    r = I.load(st, a[0])
    return bnot(lt(fld(r, "start"), fld(r, "end")))


# ---------------------------------------------------------------- integers
for _ty in ("usize", "u64", "u32", "u16", "u8", "i64", "i32"):
    def _mk(ty):
        def top(c):
            """the largest value of the type the method is called on"""
            t = c["atys"][0] if c["atys"] else None
            if t is None or not is_int(t):
                return None
            w = INT_BITS[t[1]]
            return num((1 << w) - 1 if is_unsigned(t) else (1 << (w - 1)) - 1)

        def free(a, c):
            """an operand is a parameter: callers may choose it as large as they like"""
            return any(is_param(x) for x in a) and top(c) is not None

        def wadd(I, st, a, c):
            r = add(a[0], a[1])
            if free(a, c) and is_unsigned(c["atys"][0]):
                return rem(r, add(top(c), ONE))
            return r

        def ssub_(I, st, a, c):
            d = sub(a[0], a[1])
            if entails(st.pc, ge0(d)):
                return d
            return mk_max(d, ZERO)

        def sadd(I, st, a, c):
            r = add(a[0], a[1])
            return mk_min(r, top(c)) if free(a, c) else r

        def csub(I, st, a, c):
            d = sub(a[0], a[1])
            return ite(ge0(d), some(d), NONE)

        def cadd(I, st, a, c):
            r = add(a[0], a[1])
            return ite(le(r, top(c)), some(r), NONE) if free(a, c) else some(r)

        def cmul(I, st, a, c):
            return some(mul(a[0], a[1]))

        def cdiv(I, st, a, c):
            return ite(eq(a[1], ZERO), NONE, some(div(a[0], a[1])))

        def adiff(I, st, a, c):
            return mk_max(sub(a[0], a[1]), sub(a[1], a[0]))

        def divceil(I, st, a, c):
            return div(sub(add(a[0], a[1]), ONE), a[1])

        def nmo(I, st, a, c):
            q = div(sub(add(a[0], a[1]), ONE), a[1])
            return mul(q, a[1])

        b = f"std::num::{ty}"
        for pre in (f"std::num::{ty}", f"std::{ty}", "std::num"):
            INH[pre + "::wrapping_add"] = wadd
            INH[pre + "::saturating_add"] = sadd
            INH[pre + "::saturating_sub"] = ssub_
            INH[pre + "::checked_sub"] = csub
            INH[pre + "::checked_add"] = cadd
            INH[pre + "::checked_mul"] = cmul
            INH[pre + "::checked_div"] = cdiv
            INH[pre + "::abs_diff"] = adiff
            INH[pre + "::div_ceil"] = divceil
            INH[pre + "::next_multiple_of"] = nmo
            INH[pre + "::wrapping_mul"] = lambda I, st, a, c: mul(a[0], a[1])
            INH[pre + "::saturating_mul"] = lambda I, st, a, c: mul(a[0], a[1])
            INH[pre + "::wrapping_sub"] = lambda I, st, a, c: sub(a[0], a[1])
    _mk(_ty)


# ---------------------------------------------------------------- nalgebra
def dims(ty):
    if ty is None or ty[0] != "adt":
        return None
    p = ty[1]
    if p in ("nalgebra::Matrix", "nalgebra::base::Matrix") or p.endswith("::Matrix"):
        a = ty[2]
        try:
            # dynamic dimensions are only admitted for matrices that are created with three rows and columns (vec_fill)
            r = 3 if a[1][1].endswith("::Dyn") else a[1][2][0][1]
            c = 3 if a[2][1].endswith("::Dyn") else a[2][2][0][1]
            return int(r), int(c)
        except (IndexError, ValueError, TypeError):
            return None
    if p.endswith("OPoint"):
        try:
            return int(ty[2][1][2][0][1]), 1
        except (IndexError, ValueError, TypeError):
            return None
    return None


def vec_new(I, st, a, c):
    return raw("arr", *a)


def dynamic(ty):
    return ty[0] == "adt" and len(ty[2]) > 2 and any(x[0] == "adt" and x[1].endswith("::Dyn") for x in ty[2][1:3])


for _p in ("nalgebra::base::construction::new", "nalgebra::geometry::point_construction::new", "nalgebra::Matrix::new", "nalgebra::OPoint::new", "nalgebra::new"):
    INH[_p] = vec_new


def vec_fill(v):
    def f(I, st, a, c):
        d = dims(c["ret"])
        if not d:
            raise Unknown("matrix construction")
        if dynamic(c["ret"]) and not all(n is num(k) for n, k in zip(a, d)):
            raise Unknown("matrix of other dimensions")
        x = a[len(a) - 1] if v is None else raw("fc", v) if is_float(c["ret"][2][0]) else num(int(float(v)))
        return raw("arr", *([x] * (d[0] * d[1])))
    return f


for _n, _v in (("repeat", None), ("from_element", None), ("zeros", "0.0")):
    INH["nalgebra::base::construction::" + _n] = vec_fill(_v)


def elementwise(op):
    def f(I, st, a, c):
        ta, tb = c["atys"][0], c["atys"][1]
        x, ta = content(I, st, a[0], ta)
        y, tb = content(I, st, a[1], tb)
        if ta is not None and ta[0] == "prim" and tb is not None and tb[0] == "prim":
            r = I.binop(op, x, y, ta)
            I.assume(st, bnot(I.overflow(st, op + "WithOverflow", ta, x, y, r)))
            return r
        da, db = dims(ta), dims(tb)
        if da and db and op == "Mul" and da[1] == db[0]:
            et = ta[2][0]
            out = []
            for j in range(db[1]):
                for i in range(da[0]):
                    r = None
                    for k in range(da[1]):
                        v = I.binop("Mul", I.typed(idx(x, num(i + k * da[0])), et), I.typed(idx(y, num(k + j * db[0])), et), et)
                        r = v if r is None else I.binop("Add", r, v, et)
                    out.append(r)
            return raw("arr", *out)
        if (da and (db == da)) or (da and tb and tb[0] == "prim"):
            if da and db and op in ("Mul", "Div"):
                raise Unknown("matrix product")
            n = da[0] * da[1]
            et = ta[2][0]
            out = []
            for i in range(n):
                p = I.typed(idx(x, num(i)), et)
                q = I.typed(idx(y, num(i)), et) if db else y
                out.append(I.binop(op, p, q, et))
            return raw("arr", *out)
        raise Unknown("operator")
    return f


for _tr, _n, _op in (("Add", "add", "Add"), ("Sub", "sub", "Sub"), ("Mul", "mul", "Mul"), ("Div", "div", "Div"), ("Rem", "rem", "Rem"), ("BitAnd", "bitand", "BitAnd"), ("BitOr", "bitor", "BitOr"), ("BitXor", "bitxor", "BitXor"), ("Shl", "shl", "Shl"), ("Shr", "shr", "Shr")):
    TRAIT[("std::ops::" + _tr, _n)] = elementwise(_op)

    def _mk2(op):
        e = elementwise(op)

        def f(I, st, a, c):
            c2 = dict(c)
            c2["atys"] = [c["atys"][0][2] if c["atys"][0] and c["atys"][0][0] == "ref" else c["atys"][0], c["atys"][1]]
            v = e(I, st, [I.load(st, a[0]), a[1]], c2)
            I.store(st, a[0], v)
            return UNIT
        return f
    TRAIT[("std::ops::" + _tr + "Assign", _n + "_assign")] = _mk2(_op)


@t("std::ops::Neg", "neg")
def _(I, st, a, c):
    x, ty = content(I, st, a[0], c["atys"][0])
    d = dims(ty)
    if d:
        return raw("arr", *[neg_f(idx(x, num(i))) for i in range(d[0] * d[1])])
    raise Unknown("neg")


@t("std::ops::Not", "not")
def _(I, st, a, c):
    x, ty = content(I, st, a[0], c["atys"][0])
    if ty == ("prim", "bool"):
        return bnot(mk_bv(x))
    raise Unknown("not")


@t("std::string::ToString", "to_string")
def _(I, st, a, c):
    v, _ = content(I, st, a[0], c["atys"][0])
    return lift1(lambda x: raw("tostring", x), I.canon_val(st, v))


# ---------------------------------------------------------------- bits
BITFNS = {"reverse_bits": 1, "swap_bytes": 1, "count_ones": 1, "count_zeros": 1, "leading_zeros": 1, "trailing_zeros": 1, "rotate_left": 2, "rotate_right": 2, "isqrt": 1, "ilog2": 1, "next_power_of_two": 1}


def _mkbits(n, k):
    def f(I, st, a, c):
        ty = c["atys"][0]
        if ty is None or ty[0] != "prim" or not ty[1].startswith("u"):
            raise Unknown(n)
        w = 64 if ty[1] == "usize" else int(ty[1][1:])
        return raw("bitfn", n, num(w), *a[:k])
    return f


for _n, _k in BITFNS.items():
    for _ty in ("usize", "u64", "u32", "u16", "u8", "u128"):
        for _pre in (f"std::num::{_ty}", f"std::{_ty}", "std::num"):
            INH[f"{_pre}::{_n}"] = _mkbits(_n, _k)


def _ispow2(I, st, a, c):
    return band(bnot(eq(a[0], ZERO)), eq(raw("bitfn", "count_ones", num(64), a[0]), ONE))


def _rem(I, st, a, c):
    ty = c["atys"][0]
    if ty is None or ty[0] != "prim" or not ty[1].startswith("u"):
        raise Unknown("rem")
    return I.binop("Rem" if "rem" in c["name"] else "Div", a[0], a[1], ty)


def _pow(I, st, a, c):
    if a[1].op != "num" or not 0 <= a[1].a[0] <= (128 if a[0].op == "num" else 8):
        raise Unknown("pow")
    r = ONE
    for _ in range(a[1].a[0]):
        r = mul(r, a[0])
    return r


for _ty in ("usize", "u64", "u32", "u16", "u8", "u128"):
    for _pre in (f"std::num::{_ty}", f"std::{_ty}", "std::num"):
        INH[f"{_pre}::is_power_of_two"] = _ispow2
        INH[f"{_pre}::pow"] = _pow
        INH[f"{_pre}::rem_euclid"] = _rem
        INH[f"{_pre}::div_euclid"] = _rem


# ---------------------------------------------------------------- nalgebra, component by component
def _mats(I, st, a, c, k):
    """The first k arguments as lists of components: (lists, element types, dimensions of the first)."""
    xs, ets, d0 = [], [], None
    for i in range(k):
        x, ty = content(I, st, a[i], c["atys"][i])
        d = dims(ty)
        if not d or ty[1].endswith("OPoint") and ty[2][0][0] != "prim":
            raise Unknown("matrix of unknown dimensions")
        if d0 is None:
            d0 = d
        elif d != d0:
            raise Unknown("dimensions")
        et = ty[2][0]
        if x.op == "rowview":
            x, i, r = I.load(st, x.a[0]), x.a[1], x.a[2]
            xs.append([I.typed(idx(x, add(i, mul(num(j), r))), et) for j in range(d[0] * d[1])])
        else:
            xs.append([I.typed(idx(x, num(j)), et) for j in range(d[0] * d[1])])
        ets.append(et)
    return xs, ets, d0


def _pick(I, op, x, y, et):
    """simba: simd_min is `if self <= other { self } else { other }` (>= for max)."""
    return ite(I.binop("Le" if op == "min" else "Ge", x, y, et), x, y)


def mat_zip(op):
    def f(I, st, a, c):
        (x, y), ets, d = _mats(I, st, a, c, 2)
        g = (lambda p, q: _pick(I, op, p, q, ets[0])) if op in ("min", "max") else (lambda p, q: I.binop(op, p, q, ets[0]))
        return raw("arr", *[g(p, q) for p, q in zip(x, y)])
    return f


NAP = ("nalgebra::base::componentwise::", "nalgebra::base::matrix_view::", "nalgebra::base::iter::", "nalgebra::base::matrix::Matrix::", "nalgebra::geometry::point::OPoint::", "nalgebra::geometry::point_ops::", "nalgebra::base::min_max::", "nalgebra::base::statistics::", "nalgebra::base::blas::", "nalgebra::base::norm::", "nalgebra::base::construction::", "nalgebra::base::ops::", "nalgebra::base::properties::", "nalgebra::base::edition::", "nalgebra::Matrix::", "nalgebra::OPoint::", "nalgebra::base::cg::", "nalgebra::base::swizzle::", "nalgebra::base::scalar::", "nalgebra::geometry::point_construction::", "nalgebra::geometry::point_conversion::", "nalgebra::base::conversion::")


def na(*names):
    def d(f):
        for n in names:
            for p in NAP:
                INH.setdefault(p + n, f)
        return f
    return d


na("inf")(mat_zip("min"))
na("sup")(mat_zip("max"))
na("component_mul")(mat_zip("Mul"))
na("component_div")(mat_zip("Div"))


@na("inf_sup")
def _(I, st, a, c):
    return tup(mat_zip("min")(I, st, a, c), mat_zip("max")(I, st, a, c))


@na("map")
def _(I, st, a, c):
    (x,), _, d = _mats(I, st, a, c, 1)
    return raw("arr", *[callf(I, st, a[1], [p], c) for p in x])


@na("zip_map")
def _(I, st, a, c):
    (x, y), _, d = _mats(I, st, a, c, 2)
    return raw("arr", *[callf(I, st, a[2], [p, q], c) for p, q in zip(x, y)])


@na("map_with_location")
def _(I, st, a, c):
    (x,), _, d = _mats(I, st, a, c, 1)
    return raw("arr", *[callf(I, st, a[1], [num(i % d[0]), num(i // d[0]), p], c) for i, p in enumerate(x)])


@na("fold")
def _(I, st, a, c):
    (x,), _, d = _mats(I, st, a, c, 1)
    r = a[1]
    for p in x:
        r = callf(I, st, a[2], [r, p], c)
    return r


@na("apply")
def _(I, st, a, c):
    (x,), ets, d = _mats(I, st, a, c, 1)
    v, ty = content(I, st, a[0], c["atys"][0])
    for j in range(d[0] * d[1]):
        callf(I, st, a[1], [extend_lift(a[0], "I", num(j))], c)
    return UNIT


@na("add_scalar")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    return raw("arr", *[I.binop("Add", p, a[1], et) for p in x])


@na("scale")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    return raw("arr", *[I.binop("Mul", p, a[1], et) for p in x])


@na("unscale")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    return raw("arr", *[I.binop("Div", p, a[1], et) for p in x])


@na("abs")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    if not is_float(et):
        raise Unknown("abs")
    return raw("arr", *[lift1(lambda v: raw("call", f"std::{et[1]}::<impl {et[1]}>::abs", v), p) for p in x])


def _matred(op):
    def f(I, st, a, c):
        (x,), (et,), d = _mats(I, st, a, c, 1)
        r = x[0]
        if op in ("min", "max") and len(x) > 4:
            return raw("call", "Matrix::" + op, raw("arr", *x))
        for p in x[1:]:
            r = _pick(I, op, r, p, et) if op in ("min", "max") else I.binop(op, r, p, et)
        return r
    return f


na("min")(_matred("min"))
na("max")(_matred("max"))
na("product")(_matred("Mul"))


def _amatred(op):
    def f(I, st, a, c):
        (x,), (et,), d = _mats(I, st, a, c, 1)
        if not is_float(et):
            raise Unknown("a" + op)
        x = [lift1(lambda v: raw("call", f"std::{et[1]}::<impl {et[1]}>::abs", v), p) for p in x]
        if len(x) > 4:
            return raw("call", "Matrix::" + op, raw("arr", *x))
        r = x[0]
        for p in x[1:]:
            r = _pick(I, op, r, p, et)
        return r
    return f


na("amax")(_amatred("max"))
na("amin")(_amatred("min"))


@na("trace")
def _(I, st, a, c):
    (x,), (et,), (r, n) = _mats(I, st, a, c, 1)
    if r != n:
        raise Unknown("trace")
    v = x[0]
    for k in range(1, r):
        v = I.binop("Add", v, x[k + k * r], et)
    return v


@na("set_row", "set_column")
def _(I, st, a, c):
    _, _, (r, n) = _mats(I, st, a, c, 1)
    if "View" in str(strip_ref(c["atys"][0])[2][3]):
        raise Unknown("set_row of a view")
    row = c["name"].endswith("row")
    (y,), _, d = _mats(I, st, [a[2]], {"atys": [c["atys"][2]]}, 1)
    if len(y) != (n if row else r):
        raise Unknown("dimensions")
    I.assume(st, I.binop("Lt", a[1], num(r if row else n), ("prim", "usize")))
    for j, e in enumerate(y):
        at = add(a[1], num(j * r)) if row else add(mul(a[1], num(r)), num(j))
        I.store(st, extend_lift(a[0], "I", at), e)
    return UNIT
na("sum")(_matred("Add"))


@na("mean")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    if not is_float(et):
        raise Unknown("mean")
    return I.binop("Div", _matred("Add")(I, st, a, c), raw("fc", repr(float(len(x)))), et)


def _dot(I, x, y, et):
    r = None
    for p, q in zip(x, y):
        v = I.binop("Mul", p, q, et)
        r = v if r is None else I.binop("Add", r, v, et)
    return r


@na("dot")
def _(I, st, a, c):
    (x, y), (et, _), d = _mats(I, st, a, c, 2)
    return _dot(I, x, y, et)


@na("norm_squared", "magnitude_squared")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    return _dot(I, x, x, et)


def _sqrt(v, et):
    return lift1(lambda x: raw("call", f"std::{et[1]}::<impl {et[1]}>::sqrt", x), v)


@na("norm", "magnitude")
def _(I, st, a, c):
    (x,), (et,), d = _mats(I, st, a, c, 1)
    if not is_float(et):
        raise Unknown("norm")
    return _sqrt(_dot(I, x, x, et), et)


@na("cross")
def _(I, st, a, c):
    (x, y), (et, _), d = _mats(I, st, a, c, 2)
    if d[0] * d[1] != 3:
        raise Unknown("cross")
    out = []
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        out.append(I.binop("Sub", I.binop("Mul", x[j], y[k], et), I.binop("Mul", x[k], y[j], et), et))
    return raw("arr", *out)


def strip_ref(ty):
    while ty is not None and ty[0] in ("ref", "ptr"):
        ty = ty[2]
    return ty


def _line(row):
    def f(I, st, a, c):
        (x,), _, (r, n) = _mats(I, st, a, c, 1)
        k = a[1].a[0] if a[1].op == "num" else None
        if k is None or k >= (r if row else n):
            raise Unknown("row or column")
        return raw("arr", *([x[k + j * r] for j in range(n)] if row else x[k * r:(k + 1) * r]))
    return f


na("row")(_line(True))
na("column")(_line(False))


@na("row_iter", "column_iter")
def _(I, st, a, c):
    (x,), _, (r, n) = _mats(I, st, a, c, 1)
    rows = c["name"].endswith("row_iter")
    w = [[x[k + j * r] for j in range(n)] for k in range(r)] if rows else [x[k * r:(k + 1) * r] for k in range(n)]
    return it(spec("owned", raw("arr", *[raw("arr", *y) for y in w])))


@na("row_iter_mut")
def _(I, st, a, c):
    _, _, (r, n) = _mats(I, st, a, c, 1)
    if a[0].op != "ref" and a[0].op != "D":
        raise Unknown("rows")
    return it(spec("owned", TM.mk_vecof(num(r), raw("rowview", a[0], raw("bk", 0), num(r)), 0)))


@na("copy_from")
def _(I, st, a, c):
    (x, y), _, d = _mats(I, st, a, c, 2)
    v = I.load(st, a[0])
    ty = strip_ref(c["atys"][0])
    if v.op == "rowview":
        for j, e in enumerate(y):
            I.store(st, extend_lift(v.a[0], "I", add(v.a[1], mul(num(j), v.a[2]))), e)
    elif "View" in str(ty[2][3]):
        raise Unknown("copy into a view")
    else:
        I.store(st, a[0], raw("arr", *y))
    return UNIT


@na("diagonal")
def _(I, st, a, c):
    (x,), _, (r, n) = _mats(I, st, a, c, 1)
    return raw("arr", *[x[k + k * r] for k in range(min(r, n))])


@na("transpose")
def _(I, st, a, c):
    (x,), _, d = _mats(I, st, a, c, 1)
    return raw("arr", *[x[i + j * d[0]] for i in range(d[0]) for j in range(d[1])])


@na("iter", "iter_mut")
def _(I, st, a, c):
    ty = c["atys"][0]
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    d = dims(ty)
    if not d:
        raise Unknown("matrix of unknown dimensions")
    return it(spec("slice", a[0], num(d[0] * d[1])))


@na("len")
def _(I, st, a, c):
    (x,), _, d = _mats(I, st, a, c, 1)
    return num(len(x))


@na("nrows")
def _(I, st, a, c):
    return num(_mats(I, st, a, c, 1)[2][0])


@na("ncols")
def _(I, st, a, c):
    return num(_mats(I, st, a, c, 1)[2][1])


@na("as_slice", "as_mut_slice")
def _(I, st, a, c):
    _mats(I, st, a, c, 1)
    return a[0]


def _from_slice(row):
    def f(I, st, a, c):
        d = dims(c["ret"])
        if not d:
            raise Unknown("matrix construction")
        n = d[0] * d[1]
        x = I.load(st, a[0])
        I.assume(st, le(num(n), slen(x)))
        at = [idx(x, num(i)) for i in range(n)]
        return raw("arr", *([at[i * d[1] + j] for j in range(d[1]) for i in range(d[0])] if row else at))
    return f


na("from_row_slice")(_from_slice(True))
na("from_column_slice")(_from_slice(False))
na("from_slice")(_from_slice(False))


@na("from_fn")
def _(I, st, a, c):
    d = dims(c["ret"])
    if not d:
        raise Unknown("matrix construction")
    return raw("arr", *[callf(I, st, a[0], [num(i), num(j)], c) for j in range(d[1]) for i in range(d[0])])


@na("from_iterator")
def _(I, st, a, c):
    d = dims(c["ret"])
    if not d:
        raise Unknown("matrix construction")
    n = d[0] * d[1]
    v = collect_vec(I, st, into_it(I, st, a[0], c["atys"][0]).a[0], c)
    I.assume(st, le(num(n), slen(v)))
    return raw("arr", *[idx(v, num(i)) for i in range(n)])


@m("nalgebra::center")
def _(I, st, a, c):
    (x, y), (et, _), d = _mats(I, st, a, c, 2)
    if not is_float(et):
        raise Unknown("center")
    return raw("arr", *[I.binop("Mul", I.binop("Add", p, q, et), raw("fc", "0.5"), et) for p, q in zip(x, y)])


@m("nalgebra::distance", "nalgebra::distance_squared")
def _(I, st, a, c):
    (x, y), (et, _), d = _mats(I, st, a, c, 2)
    if not is_float(et):
        raise Unknown("distance")
    df = [I.binop("Sub", q, p, et) for p, q in zip(x, y)]
    r = _dot(I, df, df, et)
    return r if c["name"].endswith("squared") else _sqrt(r, et)


@m("rand::thread_rng", "rand::rngs::thread::thread_rng")
def _(I, st, a, c):
    """A generator of its own in every iteration."""
    return raw("call", "thread::thread_rng", *I.iters)

"""Program facts: functions, types, impls of the analysed crates, as dumped by the compiler driver."""
import json
import re

_canon = {}


def canon(p):
    r = _canon.get(p)
    if r is None:
        r = re.sub(r"(?<![\w])static_assertions::core::", "std::", p)
        r = re.sub(r"(?<![\w:])(core|alloc)::", "std::", r)
        r = re.sub(r"(?<![\w])(\w+)::__private::std::", "std::", r)
        _canon[p] = r
    return r


class Fn:
    __slots__ = ("id", "path", "kind", "name", "loc", "g", "body", "promoted", "d", "crate", "cfg")

    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.id = d["id"]
        self.path = canon(d["path"])
        self.kind = d["kind"]
        self.name = d.get("name", "")
        self.loc = d["loc"]
        self.g = [(x[0], x[1]) for x in d.get("g", []) if True]
        self.body = d["body"]
        self.promoted = d.get("promoted", [])
        self.cfg = None

    def __repr__(self):
        return f"<fn {self.path}>"


class Program:
    def __init__(self, files):
        self.fns = {}
        self.consts = {}
        self.traits = {}
        self.impls = []
        self.adts = {}
        self.adts_local = {}
        self.crates = []
        self.by_path = {}
        self.impl_index = {}
        for f in files:
            self.load(f)

    def load(self, f):
        d = json.load(open(f))
        crate = d["crate"]
        self.crates.append(crate)
        cr = Crate(self, d)
        for x in d["fns"]:
            fn = Fn(x, cr)
            self.fns[fn.id] = fn
            self.by_path.setdefault(fn.path, []).append(fn)
        for x in d["consts"]:
            x["crate"] = cr
            self.consts[x["id"]] = x
        for x in d["traits"]:
            x["crate"] = cr
            self.traits[canon(x["p"])] = x
        for x in d["impls"]:
            x["crate"] = cr
            x["self_ty"] = cr.ty(x["self"])
            x["trait_path"] = canon(x["trait"]) if "trait" in x else None
            x["targs_ty"] = [cr.arg(a) for a in x.get("targs", [])]
            x["item_ids"] = {i["n"]: i["id"] for i in x["items"]}
            self.impls.append(x)
            self.impl_index.setdefault(x["trait_path"], []).append(x)
        for x in d["adts"]:
            p = canon(x["p"])
            if p not in self.adts:
                x["crate"] = cr
                self.adts[p] = x
        for x in d["adts_local"]:
            x["crate"] = cr
            self.adts_local[canon(x["p"])] = x

    def adt_fields(self, path, variant):
        a = self.adts.get(path)
        if a is None or variant >= len(a["v"]):
            return None
        return [(f["n"], a["crate"].ty(f["t"])) for f in a["v"][variant]["f"]]

    def find_impl_item(self, trait, name, self_ty, targs):
        """-> (fn id, impl substitution (dict name->type), impl) or None"""
        best = None
        for im in self.impl_index.get(trait, []):
            m = {}
            pats = im["targs_ty"]
            acts = [self_ty] + list(targs)
            ok = unify(im["self_ty"], self_ty, m)
            for p, a in zip(pats[1:], acts[1:]):
                if not ok:
                    break
                ok = unify(p, a, m)
            if not ok:
                continue
            blanket = im["self_ty"][0] == "param"
            if blanket:
                continue
            best = (im, m)
            break
        return best


class Crate:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d["crate"]
        self.raw = d["types"]
        self.cache = {}

    def arg(self, a):
        if isinstance(a, dict):
            return ("const", str(a["const"]))
        return self.ty(a)

    def ty(self, i):
        r = self.cache.get(i)
        if r is not None:
            return r
        t = self.raw[i]
        k = t["k"]
        if k == "prim":
            r = ("prim", t["n"])
        elif k == "adt":
            r = ("adt", canon(t["p"]), tuple(self.arg(x) for x in t["a"]))
        elif k in ("ref", "ptr"):
            r = (k, bool(t["m"]), self.ty(t["t"]))
        elif k == "slice":
            r = ("slice", self.ty(t["t"]))
        elif k == "array":
            n = t["n"]
            if n is None:
                m = re.search(r"; (.*)\]$", t["s"])
                n = ("constparam", m.group(1) if m else "?")
            r = ("array", self.ty(t["t"]), n)
        elif k == "tuple":
            r = ("tuple", tuple(self.ty(x) for x in t["a"]))
        elif k == "param":
            r = ("param", t["n"])
        elif k == "closure":
            r = ("closure", t["id"], tuple(self.ty(x) for x in t["a"]), tuple(self.ty(x) for x in t["up"]))
        elif k == "fndef":
            r = ("fndef", t["id"], canon(t["p"]), tuple(self.arg(x) for x in t["a"]))
        elif k == "dyn":
            r = ("dyn", canon(t["p"]) if t["p"] else None)
        elif k == "alias":
            r = ("alias", canon(t["p"]), tuple(self.arg(x) for x in t["a"]))
        elif k == "fnptr":
            r = ("fnptr",)
        else:
            r = ("other", t["s"])
        self.cache[i] = r
        return r


def unify(pat, act, m):
    if pat[0] == "param":
        if pat[1] in m:
            return m[pat[1]] == act
        m[pat[1]] = act
        return True
    if pat[0] == "const" and act[0] == "const":
        if pat[1] == act[1]:
            return True
        if not pat[1].isdigit():
            m[pat[1]] = act
            return True
        return False
    if pat[0] != act[0]:
        return False
    if len(pat) != len(act):
        return False
    for a, b in zip(pat[1:], act[1:]):
        if isinstance(a, tuple) and a and isinstance(a[0], str) and isinstance(b, tuple) and b and isinstance(b[0], str):
            if not unify(a, b, m):
                return False
        elif isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not unify(x, y, m):
                    return False
        elif a != b:
            return False
    return True


def subst_ty(t, m):
    """m: dict param name -> type"""
    if not m:
        return t
    k = t[0]
    if k == "param":
        return m.get(t[1], t)
    if k == "const":
        return m.get(t[1], t)
    if k == "prim" or k == "fnptr" or k == "dyn" or k == "other":
        return t
    if k == "array":
        n = t[2]
        if isinstance(n, tuple) and n[0] == "constparam" and n[1] in m:
            c = m[n[1]]
            if c[0] == "const" and c[1].isdigit():
                n = int(c[1])
            elif c[0] == "const":
                n = ("constparam", c[1])
        return ("array", subst_ty(t[1], m), n)
    if k in ("ref", "ptr"):
        return (k, t[1], subst_ty(t[2], m))
    if k == "slice":
        return (k, subst_ty(t[1], m))
    if k == "tuple":
        return (k, tuple(subst_ty(x, m) for x in t[1]))
    if k in ("adt", "alias"):
        return (k, t[1], tuple(subst_ty(x, m) for x in t[2]))
    if k == "closure":
        return (k, t[1], tuple(subst_ty(x, m) for x in t[2]), tuple(subst_ty(x, m) for x in t[3]))
    if k == "fndef":
        return (k, t[1], t[2], tuple(subst_ty(x, m) for x in t[3]))
    return t


def ty_str(t):
    k = t[0]
    if k == "prim":
        return t[1]
    if k == "adt":
        n = t[1].split("::")[-1]
        a = ",".join(ty_str(x) for x in t[2])
        return n + (f"<{a}>" if a else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + ty_str(t[2])
    if k == "ptr":
        return "*" + ("mut " if t[1] else "const ") + ty_str(t[2])
    if k == "slice":
        return f"[{ty_str(t[1])}]"
    if k == "array":
        return f"[{ty_str(t[1])};{t[2]}]"
    if k == "tuple":
        return "(" + ",".join(ty_str(x) for x in t[1]) + ")"
    if k == "param":
        return t[1]
    if k == "const":
        return t[1]
    if k == "closure":
        return "closure"
    if k == "alias":
        return t[1].split("::")[-1] + "<" + ",".join(ty_str(x) for x in t[2]) + ">"
    if k == "dyn":
        return "dyn " + str(t[1]).split("::")[-1]
    return k


UNSIGNED_PRIMS = {"usize", "u8", "u16", "u32", "u64", "u128"}
INT_PRIMS = UNSIGNED_PRIMS | {"isize", "i8", "i16", "i32", "i64", "i128"}
INT_BITS = {"usize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "isize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
PRIM_SIZE = {"usize": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "isize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "f32": 4, "f64": 8, "bool": 1, "char": 4}


def is_unsigned(t):
    return t[0] == "prim" and t[1] in UNSIGNED_PRIMS


def is_int(t):
    return t[0] == "prim" and t[1] in INT_PRIMS


def is_float(t):
    return t[0] == "prim" and t[1] in ("f32", "f64")

"""Reference summaries: the confirmed behaviour of every entry point (written only by
tools/accept_specs.py), and the field tables of the analysed structs they refer to."""
import json
import os

from .facts import *
from .summary import *

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
SKIP = re.compile(r"convex_hull|^iteration$|create_conv|__stability")
# too large to inline: summarised on their own, uninterpreted in their callers
EXTRA_OPAQUE = {"set_all_attributes"}
KEY_OPAQUE = {"set_all_attributes": {"centroid_average_vec", "centroid_average_num", "centroid_most_common", "centroid_max_pool"}}


def opaque_for(prog, key):
    return default_opaque(prog, EXTRA_OPAQUE | KEY_OPAQUE.get(key, set()))


def ty_json(t):
    if isinstance(t, tuple):
        return [ty_json(x) for x in t]
    return t


def ty_unjson(t):
    if isinstance(t, list):
        return tuple(ty_unjson(x) for x in t)
    return t


def adt_table(prog):
    """Field names and types of every struct and enum that is part of the library."""
    out = {}
    for p, a in sorted(prog.adts.items()):
        if not p.startswith("pasture_"):
            continue
        out[p] = [[v["n"], [[f["n"], ty_json(a["crate"].ty(f["t"]))] for f in v["f"]]] for v in a["v"]]
    return out


def norm_ty(t):
    """types as compared between the reference and the current tree (no generic parameter names)"""
    return ty_str(t)


class Reference:
    def __init__(self):
        self.adts = json.load(open(f"{DIR}/adts.json"))
        self.sums = {}
        for l in open(f"{DIR}/summaries.jsonl"):
            d = json.loads(l)
            self.sums[d["key"]] = d

    def roles(self, prog):
        """-> (renames {(adt, current name): reference name}, set of incompatible adts)"""
        ren, bad = {}, set()
        for p, vs in self.adts.items():
            a = prog.adts.get(p)
            if a is None:
                bad.add(p)
                continue
            if len(vs) != len(a["v"]):
                bad.add(p)
                continue
            for (vn, fs), v in zip(vs, a["v"]):
                cur = [(f["n"], a["crate"].ty(f["t"])) for f in v["f"]]
                ref = [(n, ty_unjson(t)) for n, t in fs]
                cn, rn = dict(cur), dict(ref)
                if cn == rn and vn == v["n"]:
                    continue
                lost = [n for n in rn if n not in cn]
                new = [n for n in cn if n not in rn]
                same = all(ty_str(cn[n]) == ty_str(rn[n]) for n in rn if n in cn)
                if vn != v["n"] or not same or len(lost) != len(new):
                    bad.add(p)
                    continue
                # a private field was renamed: match the lost and the new fields by type
                m = {}
                for n in new:
                    c = [x for x in lost if ty_str(rn[x]) == ty_str(cn[n])]
                    if len(c) == 1 and c[0] not in m.values():
                        m[n] = c[0]
                if len(m) != len(new):
                    bad.add(p)
                    continue
                for n, r in m.items():
                    ren[(p, n)] = r
        return ren, bad


class RefProg:
    """The program with the reference's field names (for generating inputs)."""

    def __init__(self, prog, ref, ren):
        self.prog = prog
        self.ren = ren
        self.adts = prog.adts

    def adt_fields(self, path, variant):
        fs = self.prog.adt_fields(path, variant)
        return fs and [(self.ren.get((path, n), n), t) for n, t in fs]

    def __getattr__(self, n):
        return getattr(self.prog, n)


def load_program():
    from . import build
    d = build.facts()
    return Program([d + "/pasture_core.json", d + "/pasture_algorithms.json"])


def public(e):
    """Part of the interface: reachable from outside, or a trait method."""
    d = e.fn.d
    return bool(d.get("reach")) or "impl_trait" in d or "trait" in d


def mentions(t, adts):
    """does the type mention one of the given adts (transitively through its arguments)?"""
    if isinstance(t, tuple):
        if t and t[0] == "adt" and t[1] in adts:
            return True
        return any(mentions(x, adts) for x in t)
    return False

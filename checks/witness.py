"""Witness crates: client programs of the current library, generated, type-checked and never run.

judge(): the summary of every `check_X` function is a closed term that has to normalise to 0.
reject(): programs that must not compile, each next to a compiling twin that differs in the offending
construct only."""
import multiprocessing as mp
import re

from engine import build
from engine.equiv import *
from engine.facts import Program
from engine.model import Model
from engine.summary import *

class Case:
    def __init__(self, name, what):
        self.name, self.what, self.codes = name, what, {}


def evaluate(prog, key, entry, sizes):
    S = summarize1(prog, entry, lambda *a: False, secs=60)
    if S.status == "failed":
        return None, "not summarised: " + S.why
    m = Model(1)
    for p, l in sizes.items():
        for n in (p, p.split("::")[-1]):
            m.T[n] = l["size"]
            m.aligns[n] = l["align"]
    ev = Eval(m, {})
    try:
        if S.status == "diverges" or not ev.ev(S.pc):
            return "panic", "creating the layout always panics"
        v = ev.ev(S.ret)
    except (Fault, Unsup) as ex:
        return None, f"not reducible: {ex!r}"[:200]
    if not isinstance(v, int):
        return None, f"not a number: {v!r}"[:200]
    return v, ""


G = {}


def work(name):
    prog, ents, sizes = G["w"]
    e = ents.get("check_" + name)
    if e is None:
        return name, None, "no such function"
    try:
        v, why = evaluate(prog, name, e, sizes)
    except Exception as ex:
        return name, None, repr(ex)[:200]
    return name, v, why


def judge(cases, src, crate, what_at="derive(PointType)"):
    """compile the accepted structs and decide every obligation -> (violations, undecided, ok)"""
    ok, ff, errs = build.witness(crate, src)[0]
    viol, und, good = [], [], 0
    lines = src.split("\n")
    if not ok:
        owner, cur = {}, None
        for i, l in enumerate(lines):
            m = re.match(r"pub struct (\w+)", l)
            if m:
                cur = m.group(1)
            owner[i + 1] = cur
        hit = {}
        for ls, msg in errs:
            for l in ls:
                hit.setdefault(owner.get(l), msg)
        byname = {c.name: c for c in cases}
        for n, msg in hit.items():
            if n in byname:
                viol.append(dict(kind="refused", key=n, at=what_at, what=f"{byname[n].what} does not compile any more: {msg}", detail=src_of(src, n)))
        if not viol:
            und.append(("witness crate", f"does not compile: {errs[:2]}"))
        return viol, und, good
    core = build.facts() + "/pasture_core.json"
    prog = Program([core, ff])
    ents = entries(prog)
    sizes = {a["p"]: a["layout"] for a in prog.adts_local.values() if "layout" in a and a["p"].startswith(crate.replace("-", "_") + "::")}
    G["w"] = (prog, ents, sizes)
    byname = {c.name: c for c in cases}
    with mp.Pool(8) as pool:
        for n, v, why in pool.imap_unordered(work, [c.name for c in cases], chunksize=4):
            c = byname[n]
            if v is None:
                und.append((n, why))
            elif v == 0:
                good += 1
            else:
                what = why if v == "panic" else f"{c.codes.get(v, 'obligation ' + str(v))} is not what is reported"
                viol.append(dict(kind="derived", key=n, at=f"{what_at} for {c.what}", what=f"{c.what}: {what}", detail=src_of(src, n)))
    return viol, und, good


def src_of(src, name):
    i = src.find(f"pub struct {name}")
    i = max(src.rfind("\n\n", 0, i), 0)
    return src[i:i + 900]


def reject(rs, head, crate, what_at="derive(PointType)", deps=()):
    """rs: [(what, program that must not compile, twin)]"""
    src, twins, span = head, head, {}
    for i, (what, bad, good) in enumerate(rs):
        a = src.count("\n") + 1
        src += f'#[cfg(any(feature = "all", feature = "case_{i}"))]\npub mod case_{i} {{\nuse super::*;\n{bad}}}\n'
        span[i] = (a, src.count("\n"))
        twins += f"pub mod case_{i} {{\nuse super::*;\n{good}}}\n"
    feats = ["all"] + [f"case_{i}" for i in range(len(rs))]
    (_, _, errs), = build.witness(crate, src, feats, [("all",)], deps)

    def hit(errs):
        return {i for i, (a, b) in span.items() for ls, _ in errs if any(a <= l <= b for l in ls)}

    left = [i for i in span if i not in hit(errs)]
    viol = []
    if left:
        for i, (ok, _, es) in zip(left, build.witness(crate, src, feats, [(f"case_{i}",) for i in left], deps)):
            if ok or i not in hit(es):
                viol.append(dict(kind="accepted", key=rs[i][0], at=what_at, what=f"{rs[i][0]} is accepted", detail=rs[i][1]))
    ok, _, errs = build.witness(crate + "-twins", twins, deps=deps)[0]
    if not ok:
        viol.append(dict(kind="refused", key="twins", at=what_at, what=f"a compiling twin of a refused program is refused: {errs[:2]}"[:500], detail=twins[:2000]))
    return viol, len(rs)

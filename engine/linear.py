"""Entailment between linear inequalities over monomials (Fourier-Motzkin elimination).
Used as the transfer-function test of the polyhedral part of the abstract domain."""
from math import gcd

from .terms import *
from . import terms as TM

CAP = 400


def to_rows(lit):
    """Literal (atom, polarity) -> list of dict rows meaning row >= 0, or None."""
    a, pos = lit
    if a.op == "ge0":
        p = a.a[0]
        if p.op == "ite":
            return None
        if pos:
            return [poly(p)]
        return [poly(TM._add(TM._neg(p), num(-1)))]
    if a.op == "eq":
        x, y = a.a
        if x.op == "ite" or y.op == "ite":
            return None
        if not (is_intish(x) or is_intish(y)):
            return None
        d = TM._add(x, TM._neg(y))
        if pos:
            return [poly(d), poly(TM._neg(d))]
        # x != 0 with x nonneg
        if nonneg(d):
            return [poly(TM._add(d, num(-1)))]
        if nonneg(TM._neg(d)):
            return [poly(TM._add(TM._neg(d), num(-1)))]
        return None
    return None


def norm(r):
    g = 0
    for v in r.values():
        g = gcd(g, abs(v))
    if g > 1:
        const = r.get((), 0)
        gg = 0
        for m, v in r.items():
            if m != ():
                gg = gcd(gg, abs(v))
        if gg > 1:
            r = {m: (v // gg) for m, v in r.items()}
    return {m: v for m, v in r.items() if v}


def rkey(r):
    return frozenset((tuple(id(x) for x in m), v) for m, v in r.items())


def unsat(rows):
    rows = [norm(r) for r in rows]
    while True:
        # contradictions / trivial
        out = []
        seen = set()
        for r in rows:
            vs = [m for m in r if m != ()]
            if not vs:
                if r.get((), 0) < 0:
                    return True
                continue
            k = rkey(r)
            if k in seen:
                continue
            seen.add(k)
            out.append(r)
        rows = out
        if not rows:
            return False
        # pick the variable with the fewest products
        cnt = {}
        for r in rows:
            for m, v in r.items():
                if m != ():
                    c = cnt.setdefault(m, [0, 0])
                    c[0 if v > 0 else 1] += 1
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [r for r in rows if r.get(m, 0) > 0]
        ng = [r for r in rows if r.get(m, 0) < 0]
        rest = [r for r in rows if r.get(m, 0) == 0]
        if len(pos) * len(ng) + len(rest) > CAP:
            return False
        for p in pos:
            for n in ng:
                a, b = p[m], -n[m]
                d = {}
                for x, v in p.items():
                    d[x] = d.get(x, 0) + v * b
                for x, v in n.items():
                    d[x] = d.get(x, 0) + v * a
                d.pop(m, None)
                rest.append(norm(d))
        rows = rest


def facts_rows(pc, extra=()):
    rows = []
    for lit in literals(pc):
        r = to_rows(lit)
        if r:
            rows.extend(r)
    for e in extra:
        rows.append(poly(e))
    return rows


def entails_ge0(rows, goal):
    """rows (>=0) entail goal >= 0 ?"""
    if goal.op == "num":
        return goal.a[0] >= 0
    if nonneg(goal):
        return True
    if goal.op == "ite":
        return False
    g = poly(goal)
    # relevant facts only
    atoms = set()
    for m in g:
        atoms.update(m)
    rel = []
    pool = list(rows)
    changed = True
    used = set()
    while changed:
        changed = False
        for i, r in enumerate(pool):
            if i in used:
                continue
            at = set(x for m in r for x in m)
            if at & atoms:
                used.add(i)
                rel.append(r)
                atoms |= at
                changed = True
        if len(rel) > 40:
            break
    # definitional facts of min / max / div atoms
    for x in list(atoms):
        if x.op == "min":
            for y in x.a:
                rel.append(poly(TM.sub(y, x)))
        if x.op == "max":
            for y in x.a:
                rel.append(poly(TM.sub(x, y)))
        if x.op == "div" and x.a[1].op != "ite" and x.a[0].op != "ite":
            rel.append(poly(TM.sub(x.a[0], mul(x, x.a[1]))))
        if x.op == "rem" and x.a[1].op == "num":
            rel.append(poly(TM.sub(TM.sub(x.a[1], ONE), x)))
    # products with nonnegative atoms for monomials of degree 2
    mons = set(g)
    for r in rel:
        mons |= set(r)
    facts = list(rel)
    mult = set()
    for m in mons:
        if len(m) >= 2:
            for x in m:
                if nonneg_atom(x):
                    mult.add(x)
    if len(mult) <= 4:
        for x in mult:
            for r in rel:
                if any(len(m) >= 2 for m in r):
                    continue
                facts.append({tuple(sorted(m + (x,), key=key)): v for m, v in r.items()})
    allm = set(g)
    for r in facts:
        allm |= set(r)
    for m in allm:
        if m != () and all(nonneg_atom(x) for x in m):
            facts.append({m: 1})
    neg_goal = {m: -v for m, v in g.items()}
    neg_goal[()] = neg_goal.get((), 0) - 1
    return unsat(facts + [neg_goal])


def entails(pc, cond, extra=()):
    """pc entails the boolean cond ?"""
    if cond is TRUE:
        return True
    c = constrain(cond, pc)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    rows = facts_rows(pc, extra)
    return _ent(rows, c)


def _ent(rows, c):
    if c is TRUE:
        return True
    if c is FALSE:
        return unsat(close(rows))
    if c.op in BOOLOPS:
        v, hi, lo = c, TRUE, FALSE
    elif c.op == "ite":
        v, hi, lo = c.a
    else:
        return False
    if decide(rows, v) is True:
        return _ent(rows, hi)
    if decide(rows, v) is False:
        return _ent(rows, lo)
    # case split on the atom (both sides must hold)
    r1 = to_rows((v, True))
    r2 = to_rows((v, False))
    return _ent(rows + (r1 or []), hi) and _ent(rows + (r2 or []), lo) if (hi is not FALSE or r1) and (lo is not FALSE or r2) else False


def close(rows):
    allm = set()
    for r in rows:
        allm |= set(r)
    facts = list(rows)
    for m in allm:
        if m != () and all(nonneg_atom(x) for x in m):
            facts.append({m: 1})
    return facts


def decide(rows, atom):
    """Truth value of an atom under the rows, or None."""
    if atom.op == "ge0":
        p = atom.a[0]
        if p.op == "ite":
            return None
        if entails_ge0(rows, p):
            return True
        if entails_ge0(rows, TM._add(TM._neg(p), num(-1))):
            return False
        return None
    if atom.op == "eq":
        x, y = atom.a
        if x.op == "ite" or y.op == "ite" or not (is_intish(x) or is_intish(y)):
            return None
        d = TM._add(x, TM._neg(y))
        a = entails_ge0(rows, d)
        b = entails_ge0(rows, TM._neg(d))
        if a and b:
            return True
        if a and entails_ge0(rows, TM._add(d, num(-1))):
            return False
        if b and entails_ge0(rows, TM._add(TM._neg(d), num(-1))):
            return False
    return None


def simplify(c, pc):
    """Simplify a condition under a path condition, using linear facts."""
    c = constrain(c, pc)
    if c in (TRUE, FALSE):
        return c
    ats = [a for a in atoms_of(c) if a.op in ("ge0", "eq")]
    if not ats or len(ats) > 12:
        return c
    rows = facts_rows(pc)
    if not rows:
        return c
    for a in ats:
        d = decide(rows, a)
        if d is not None:
            c = constrain(c, a if d else bnot(a))
            if c in (TRUE, FALSE):
                return c
    return c

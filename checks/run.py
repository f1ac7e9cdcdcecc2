"""run.py <property id>: decides one property on /repo's current source.
Exit 0: held on everything analysed; exit 1 with a VIOLATION line otherwise."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine import build
from engine.equiv import *
from engine.specs import *
from checks import props

EVID = os.environ.get("VP_EVIDENCE", f"{VERIF}/evidence")
G = {}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = load_program()
        self.ref = Reference()
        self.ren, self.bad = self.ref.roles(self.prog)
        self.entries = entries(self.prog)
        self.refprog = RefProg(self.prog, self.ref, self.ren)
        self.bad_types = self.closure(self.bad)

    def closure(self, bad):
        """adts that contain an adt whose fields changed"""
        bad = set(bad)
        while True:
            n = len(bad)
            for p, vs in self.ref.adts.items():
                if p not in bad and any(mentions(ty_unjson(t), bad) for _, fs in vs for _, t in fs):
                    bad.add(p)
            if len(bad) == n:
                return bad


def where(fn):
    return f"{fn.loc}"


def obligation(key, deep=False):
    """-> dict(key, verdict ok|violation|undecided|absent, how, ...)"""
    C = G["ctx"]
    r = {"key": key, "verdict": "ok", "how": ""}
    d = C.ref.sums[key]
    e = C.entries.get(key)
    t0 = time.time()
    try:
        if e is None:
            r.update(verdict="absent", how="no such function in the current tree")
            return r
        r["at"] = where(e.fn)
        r["fn"] = e.fn.path
        if d["status"] == "failed":
            r.update(verdict="undecided", how="the reference could not be summarised")
            return r
        A = load_summary(d)
        B = summarize(C.prog, e, opaque_for(C.prog, key), roles=C.ren, secs=100 if C.tier == "quick" else 300)
        params = [(n, ty_unjson(t)) for n, t in d["params"]]
        r["inlined"] = len(B.inlined)
        r["inl"] = sorted(map(str, B.inlined))
        r["id"] = str(e.fn.id)
        if B.status == "failed":
            r.update(verdict="undecided", how="not summarised: " + B.why[:200])
            return r
        if [ty_str(t) for _, t in params] != [ty_str(t) for _, t in B.params]:
            r.update(verdict="undecided", how="signature changed")
            return r
        r["text"] = text(B, 400)
        if same_form(A, B):
            r["how"] = "identical normal form"
            if C.tier == "quick":
                return r
        if any(mentions(t, C.bad_types) for _, t in params):
            r.update(verdict="undecided", how="fields of a parameter type changed")
            return r
        want, tries, secs = (600, 6000, 14) if C.tier == "quick" else (4000, 60000, 150)
        if deep:
            want, tries, secs = max(want, 3000), max(tries, 40000), max(secs, 60)
        R = compare(C.refprog, B.params, A, B, want=want, tries=tries, secs=secs, seed=C.seed)
        r.update(samples=R.ok + R.panic, normal=R.ok, panics=R.panic, unsup={k: v for k, v in list(R.unsup.items())[:4]})
        if R.equal is True:
            r["how"] = r["how"] or "equal under random interpretation"
        elif R.equal is None:
            if not r["how"]:
                r.update(verdict="undecided", how=f"not enough comparable interpretations {R!r}"[:400])
        else:
            if tainted(B):
                r.update(verdict="undecided", how="differs, but the summary contains values the analysis does not track")
            elif R.new_calls:
                r.update(verdict="undecided", how="differs, but calls functions without a model: " + ", ".join(sorted(map(str, R.new_calls)))[:200])
            else:
                r.update(verdict="violation", how=R.why[:600], witness=R.witness)
    except Exception as ex:
        r.update(verdict="undecided", how="analysis error " + repr(ex)[:200], trace=traceback.format_exc()[-600:])
    finally:
        r["secs"] = round(time.time() - t0, 2)
    return r


def init():
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def run_obligations(ctx, keys, f=obligation, procs=8):
    G["ctx"] = ctx
    out = []
    if not keys:
        return out
    with mp.Pool(procs, init, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(f, keys):
            out.append(r)
    return sorted(out, key=lambda r: r["key"])


def deeper(key):
    return obligation(key, True)


def decide(ctx, keys, procs=8):
    """Obligations of the given entry points. A private helper that computes something else than before
    counts only if that can be observed: if every public function it is inlined into still has the
    confirmed behaviour, the helper and its callers were changed together."""
    rs = run_obligations(ctx, keys, procs=procs)
    suspects = [r for r in rs if r["verdict"] == "violation" and not public(ctx.entries[r["key"]])]
    if not suspects:
        return rs
    done = {r["key"]: r for r in rs}
    rest = [k for k in ctx.ref.sums if k not in done and k in ctx.entries and public(ctx.entries[k])]
    for r in run_obligations(ctx, rest, procs=procs):
        done[r["key"]] = r
    for s in suspects:
        callers = [r for r in done.values() if r["key"] in ctx.entries and public(ctx.entries[r["key"]]) and s["id"] in r.get("inl", ())]
        if not callers or any(r["verdict"] != "ok" for r in callers):
            continue
        again = [r["key"] for r in callers if r["how"] != "identical normal form"]
        if any(r["verdict"] != "ok" for r in run_obligations(ctx, again, deeper, procs)):
            continue
        s.update(verdict="ok", how="private helper: differs, but every public function using it is unchanged",
                 note=dict(difference=s["how"], callers=[r["key"] for r in callers]))
    return rs


def known():
    try:
        return json.load(open(f"{VERIF}/known_findings.json"))
    except FileNotFoundError:
        return []


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    keys = props.keys_for(pid, ctx.ref.sums)
    rs = decide(ctx, keys)
    violations, notes, extra = [], [], {}
    for r in rs:
        if r["verdict"] == "violation":
            violations.append(dict(kind="behaviour", key=r["key"], at=r.get("at"), what=r["how"], detail=r))
    for name in props.EXTRA.get(pid, []):
        m = importlib.import_module("checks." + name)
        x = m.check(ctx, pid)
        extra[name] = x["coverage"]
        violations += x["violations"]
        notes += x.get("notes", [])
    kf = [k for k in known() if k.get("property") == pid and k.get("status") == "finding"]
    kkeys = {k["key"] for k in kf}
    real = []
    for v in violations:
        if v["kind"] + ":" + v["key"] in kkeys:
            continue
        real.append(v)
    for k in kf:
        if k["key"].startswith("entry:"):  # the defect is part of the recorded behaviour of this function
            ent = [r for r in rs if r["key"] == k["key"][6:]]
            if ent and ent[0]["verdict"] == "ok":
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif any(v["kind"] + ":" + v["key"] == k["key"] for v in violations):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(f"{EVID}/replay", exist_ok=True)
    for i, v in enumerate(real):
        path = f"{EVID}/replay/{pid}-{i}.json"
        json.dump(v, open(path, "w"), indent=1, default=str)
        print(f"{v['key']} ({v.get('at')}): {str(v['what'])[:300]}")
        print(f"VIOLATION property={pid} replay={path}")
    cnt = {}
    for r in rs:
        cnt[r["verdict"]] = cnt.get(r["verdict"], 0) + 1
    how = {}
    for r in rs:
        if r["verdict"] == "ok":
            how[r["how"]] = how.get(r["how"], 0) + 1
    und = [{"key": r["key"], "why": r["how"]} for r in rs if r["verdict"] in ("undecided", "absent")]
    cov = {
        "explanation": props.explain(pid),
        "rule": props.rule(pid),
        "functions_analysed": len(rs),
        "functions_inlined_into_them": sum(r.get("inlined", 0) for r in rs),
        "verdicts": cnt,
        "discharged_by": how,
        "interpretations_compared": sum(r.get("samples", 0) for r in rs),
        "undecided": und,
        "extra": extra,
        "notes": notes,
        "samples": [{"function": r.get("fn"), "at": r.get("at"), "summary": [x[:300] for x in r.get("text", [])[:4]]} for r in rs[:3]],
        "functions": [r.get("fn", r["key"]) for r in rs],
        "program": {"functions": len(ctx.prog.fns), "types": len(ctx.prog.adts), "impls": len(ctx.prog.impls)},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": props.level(pid), "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(real)}
    cov["violations"] = [{k: str(v.get(k))[:500] for k in ("kind", "key", "at", "what")} for v in real]
    json.dump(ev, open(f"{EVID}/{pid}.json", "w"), indent=1, default=str)
    floor = props.FLOORS.get(pid, 0)
    decided = cnt.get("ok", 0) + cnt.get("violation", 0)
    print(f"{pid}: {len(rs)} functions, {cnt}, {sum(len(x) for x in extra.values())} structural facts, {time.time()-t0:.1f}s")
    if os.environ.get("VP_VERBOSE"):
        for u in und:
            print("  undecided", u)
    sys.exit(1 if real else 0)


if __name__ == "__main__":
    main()

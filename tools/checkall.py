"""All obligations of all properties on VP_REPO (development helper): one JSON line."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import run as R
from checks import props
from engine import build

def main():
    t = time.time()
    try:
        ctx = R.Ctx("ALL", os.environ.get("VERIF_TIER", "quick"), 1)
    except build.BuildError as e:
        print(json.dumps({"status": "build", "log": str(e)[-300:]})); return
    keys = sorted(ctx.ref.sums)
    if len(sys.argv) > 1:
        keys = [k for k in keys if R.re.search(sys.argv[1], k)]
    n = int(os.environ.get("VP_PROCS", "8"))
    out = R.decide(ctx, keys, n)
    viol = [(r["key"], r["how"][:300]) for r in out if r["verdict"] == "violation"]
    und = [(r["key"], r["how"][:200]) for r in out if r["verdict"] in ("undecided", "absent") and r["key"] not in ("set_all_attributes",)]
    eq = [r["key"] + (" (helper)" if "note" in r else "") for r in out if r["verdict"] == "ok" and r["how"] != "identical normal form"]
    ex = []
    import importlib
    mods = {}
    for pid in props.EXTRA:
        for name in props.EXTRA[pid]:
            mods.setdefault(name, []).append(pid)
    for name, pids in mods.items():
        for pid in pids:
            x = importlib.import_module("checks." + name).check(ctx, pid)
            ex += [(pid + ":" + v["kind"] + ":" + v["key"], str(v["what"])[:200]) for v in x["violations"]]
    props_hit = sorted({p for p in props.KEYS for k, _ in viol if k in set(props.keys_for(p, [k]))} | {k.split(":")[0] for k, _ in ex})
    print(json.dumps({"status": "killed" if viol or ex else "undecided" if und else "survived", "viol": viol, "extra": ex, "und": und, "equal": eq, "props": props_hit, "secs": round(time.time() - t, 1)}))

main()

"""Regenerates /verif/specs from the current tree.  Run by hand only, after reviewing the
differences: the specs are the confirmed reference of every check.   accept_specs.py [regex]"""
import multiprocessing as mp
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.specs import *

P = load_program()
E = entries(P)


def one(k):
    e = E[k]
    S = summarize(P, e, opaque_for(P, k), secs=120, budget=8000000)
    r = {"key": k, "pub": public(e), "inst": e.inst, "params": [[n, ty_json(t)] for n, t in S.params], "why": S.why}
    r.update(dump_summary(S))
    return r


def init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


if __name__ == "__main__":
    rx = re.compile(sys.argv[1]) if len(sys.argv) > 1 else None
    old = {}
    if rx:
        for l in open(f"{DIR}/summaries.jsonl"):
            d = json.loads(l)
            old[d["key"]] = l
    keys = [k for k in E if not SKIP.search(k) and (rx is None or rx.search(k))]
    with mp.Pool(8, init) as pool:
        for r in pool.imap_unordered(one, keys):
            if r["status"] != "ok":
                print(r["key"], r["status"], r["why"])
            r["text"] = [x[:1500] for x in r.get("text", [])]
            old[r["key"]] = json.dumps(r, separators=(",", ":")) + "\n"
    with open(f"{DIR}/summaries.jsonl", "w") as f:
        for k in sorted(old):
            f.write(old[k])
    json.dump(adt_table(P), open(f"{DIR}/adts.json", "w"), indent=0)
    print(len(old), "entries")

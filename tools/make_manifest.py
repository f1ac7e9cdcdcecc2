import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import props
NA = {
    "C27": "Geometric containment of every point in an incrementally built hull is an invariant over floating-point orientation tests and arbitrary insertion histories; it is not visible in the shape of the code, and no sound static argument in reach decides it.",
    "C28": "Round-trip equality of file contents is a property of runtime values; in addition pasture-io depends on crates (las, laz, tiles) that are not available offline, so its type-checked program cannot be obtained here.",
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i in props.CLAIMED:
        t, note = props.CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"python3 checks/run.py {i} quick", "thorough_cmd": f"python3 checks/run.py {i} thorough",
                       "technique": t, "level": props.level(i), "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -m engine.build", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "not yet claimed: the check is under construction")} for i in ids if i not in props.CLAIMED]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in m["not_applicable"]])

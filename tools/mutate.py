"""Development helper: source mutants of /repo in scratch copies, run through tools/checkall.py.
mutate.py OUT.jsonl [file regex] [sample n]   (scratch below /tmp/mut, removed by hand)"""
import json, multiprocessing as mp, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
FILES = [f"pasture-core/src/{x}.rs" for x in """containers/point_iterators containers/untyped_point containers/raw_attribute_view containers/slice containers/mod containers/point_buffer
containers/attribute_iterators containers/buffer_views math/minmax math/bounds math/arithmetic math/bitmanip layout/conversion/attribute_conversion layout/conversion/buffer_conversion layout/point_type layout/point_layout""".split()] + \
    [f"pasture-algorithms/src/{x}.rs" for x in "voxel_grid reprojection minmax bounds segmentation normal_estimation".split()]
OPS = [
    (r"(?<![<>=!\-+*/&|])<(?!=|<|[A-Z&'_])\s", "<= "), (r"(?<![-=<>])>(?!=|>)\s", ">= "), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" \+= ", " -= "), (r"&&", "||"), (r"\|\|(?! )", "&&"),
    (r"\.start\b", ".end"), (r"\.end\b", ".start"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bsource", "target"), (r"\btarget", "source"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])3(?![\w.])", "2"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"infimum", "supremum"), (r"supremum", "infimum"), (r"\bNone\b", "Some(Default::default())"),
    (r"!(?=[a-z])(?<![a-z_]!)", ""), (r"\.size\(\)", ".offset() as u64"), (r"\.offset\(\)", ".size()"), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len() - 1"),
    (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"self\.current_index", "0"), (r"index", "0usize"), (r"(\w+)\.\.(\w+)", r"\1..\2 + 1"), (r"\(index\b", "(index + 1"), (r"first_point", "second_point"),
    (r"from_index", "to_index"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\?;", ".ok();"), (r"Vec3u8", "Vec3u16"), (r"\bU16\b", "I16"), (r"\bU8\b", "I8"), (r"\bF32\b", "F64"), (r"\.unwrap_or\(", ".xor("),
    (r"max_by", "min_by"), (r"min_by", "max_by"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"unwrap_or\(false\)", "unwrap_or(true)"), (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"\bfirst\b", "second"),
    (r"\bother\b", "self"), (r"\bself\b(?=\.\w+\b(?!\())", "other"), (r" as u8\b", " as i8"), (r" as i16\b", " as u16"), (r" as f64\b", " as f32 as f64"), (r"\.any\(", ".all("), (r"\.abs\(\)", ""), (r"\.floor\(\)", ".ceil()"), (r"\.sqrt\(\)", ""), (r"_mut\(", "("),
    (r"any\(", "all("), (r"all\(", "any("), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"copy_from_slice\((&?)(\w+)", r"copy_from_slice(\1\2"),
]


def code_lines(path):
    ls = open(path).read().split("\n")
    for i, l in enumerate(ls):
        if l.startswith("#[cfg(test)]"):
            ls = ls[:i]
            break
    return ls


def gen(files, repo="/repo"):
    out = []
    for f in files:
        doc = False
        for i, l in enumerate(code_lines(f"{repo}/{f}")):
            c = l.strip()
            if not c or c.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "pub trait", "impl", "pub fn", "fn ", "pub struct", "pub(crate) fn", "unsafe fn", "pub unsafe fn", "where", "type ", "'a", "'b", "T:", "B:", "T,", "///")):
                continue
            code = l.split("//")[0]
            # deleted statement
            if re.match(r"^\s+[\w.:]+[\w\]\)]*(\(|\s*[+\-*/]?=\s).*;\s*$", code) and not c.startswith(("let ", "return")):
                out.append((f, i, l, re.match(r"^\s*", l).group(0) + "/* deleted */"))
            if c.startswith(("assert!(", "assert_eq!(", "debug_assert")) and c.endswith(";"):
                out.append((f, i, l, "/* deleted */"))
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if '"' in code and code.index('"') < m.start():
                        continue
                    n = code[:m.start()] + m.expand(b) + code[m.end():]
                    if n != code:
                        out.append((f, i, l, n))
    return out


def work(a):
    ident, (f, i, l, n) = a
    w = f"{ROOT}/w{mp.current_process()._identity[0] % 64}"
    if not os.path.exists(w):
        os.makedirs(w + "/repo")
        for c in ("pasture-core", "pasture-derive", "pasture-algorithms"):
            subprocess.run(["cp", "-a", f"/repo/{c}", f"{w}/repo/{c}"], check=True)
    src = open(f"/repo/{f}").read().split("\n")
    assert src[i] == l
    src[i] = n
    p = f"{w}/repo/{f}"
    open(p, "w").write("\n".join(src))
    try:
        r = subprocess.run(["python3", f"{V}/tools/checkall.py"], env=dict(os.environ, VP_REPO=f"{w}/repo", VP_CACHE=f"{w}/cache", VP_PROCS="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900)
        d = json.loads(r.stdout.strip().split("\n")[-1])
    except Exception as e:
        d = {"status": "error", "log": repr(e)[:300] + (r.stderr[-500:] if "r" in dir() else "")}
    finally:
        shutil.copyfile(f"/repo/{f}", p)
    d.update(id=ident, file=f, line=i + 1, old=l.strip(), new=n.strip())
    return d


if __name__ == "__main__":
    out = sys.argv[1]
    rx = sys.argv[2] if len(sys.argv) > 2 else "."
    ms = gen([f for f in FILES if re.search(rx, f)])
    random.Random(int(os.environ.get("VP_SEED", "5"))).shuffle(ms)
    if os.environ.get("VP_RERUN"):  # only the survivors of an earlier run
        old = [json.loads(l) for l in open(os.environ["VP_RERUN"])]
        keep = {(d["file"], d["line"] - 1, d["new"]) for d in old if d["status"] in ("survived", "undecided", "error")}
        ms = [m for m in ms if (m[0], m[1], m[3].strip()) in keep]
    if len(sys.argv) > 3:
        ms = ms[:int(sys.argv[3])]
    print(len(ms), "mutants", flush=True)
    with mp.Pool(int(os.environ.get("VP_W", "7"))) as pool, open(out, "w") as o:
        for d in pool.imap_unordered(work, list(enumerate(ms))):
            o.write(json.dumps(d) + "\n")
            o.flush()

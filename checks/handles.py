"""C23: native projection handles are owned by one value on one thread."""
from checks.witness import *

HEAD = """#![allow(dead_code, unused)]
use pasture_algorithms::reprojection::Projection;
pub fn any<T>() {}
pub fn sync<T: Sync>() {}
pub fn clone<T: Clone>() {}
pub fn copy<T: Copy>() {}
pub fn use_<T>(_t: T) {}

"""


def programs():
    ok = "pub fn client() {\nany::<Projection>();\n}\n"
    out = [(f"a projection that is {w}", ok.replace("any", f), ok) for w, f in (("shared between threads", "sync"), ("cloned", "clone"), ("copied", "copy"))]
    new = 'pub fn client() {\nlet p = Projection::new("a", "b").unwrap();\n%s}\n'
    for w, bad, good in (("used after its release", "drop(p);\nuse_(&p);\n", "use_(&p);\ndrop(p);\n"), ("released twice", "drop(p);\ndrop(p);\n", "drop(p);\n"),
                         ("a shared reference in another thread", "std::thread::scope(|s| {\ns.spawn(|| use_(&p));\n});\n", "std::thread::scope(|s| {\nuse_(&p);\n});\n")):
        out.append((f"a projection that is {w}", new % bad, new % good))
    return out


def check(ctx, pid):
    rs = programs()
    viol, n = reject(rs, HEAD, "vp-handles", "Projection", ["pasture-algorithms"])
    return dict(violations=viol, coverage=dict(compile_fail_witnesses=n, compiling_twins=n, rule="every program that shares, copies or reuses a handle is refused; its twin compiles",
                                               sample=[r[0] for r in rs]))

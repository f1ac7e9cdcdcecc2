"""C01: the datatype descriptors against the layouts the compiler gives the described types.

For every type that implements PrimitiveType in the current source: the reported size and alignment equal
`size_of`/`align_of` of that type, and no two types share a descriptor. The witness is type-checked only;
its functions are closed terms, which have to normalise to 0."""
from checks.witness import *

HEAD = """#![allow(dead_code, unused)]
use pasture_core::layout::*;
use pasture_core::nalgebra;

"""


def rust(t):
    if t[0] == "prim":
        return t[1]
    if t[0] == "array":
        return None
    s = ty_str(t)
    m = re.match(r"Matrix<(\w+),Const<(\d+)>,Const<(\d+)>,ArrayStorage<", s)
    return f"nalgebra::SMatrix<{m.group(1)}, {m.group(2)}, {m.group(3)}>" if m else None


def primitive_types(prog):
    out, other = [], []
    for im in prog.impls:
        if im.get("trait", "").endswith("::PrimitiveType"):
            t = im["crate"].ty(im["self"])
            r = rust(t)
            (out if r else other).append(r or ty_str(t))
    return sorted(set(out)), other


def check(ctx, pid):
    ts, other = primitive_types(ctx.prog)
    cases, src = [], HEAD
    for i, t in enumerate(ts):
        c = Case(f"T{i}", t)
        c.codes = {1: "the size of the type", 2: "the alignment of the type", 3: "the size of an attribute of the type"}
        src += (f"pub struct T{i};\npub fn check_T{i}() -> u64 {{\n    let d = <{t} as PrimitiveType>::data_type();\n"
                f"    if d.size() != std::mem::size_of::<{t}>() as u64 {{\n        return 1;\n    }}\n"
                f"    if d.min_alignment() != std::mem::align_of::<{t}>() as u64 {{\n        return 2;\n    }}\n"
                f"    if attributes::INTENSITY.with_custom_datatype(d).at_offset_in_type(0).size() != std::mem::size_of::<{t}>() as u64 {{\n        return 3;\n    }}\n")
        for j, o in enumerate(ts):
            if j != i:
                c.codes[10 + j] = f"a descriptor of its own (it is the one of {o})"
                src += f"    if <{t} as PrimitiveType>::data_type() == <{o} as PrimitiveType>::data_type() {{\n        return {10 + j};\n    }}\n"
        src += "    0\n}\n\n"
        cases.append(c)
    viol, und, good = judge(cases, src, "vp-types", "PrimitiveType")
    und += [(o, "not a scalar or fixed-size matrix") for o in other]
    return dict(violations=viol, coverage=dict(types=ts, obligations=sum(len(c.codes) for c in cases), proved=good, undecided=und[:20],
                                               rule="descriptor(T).size == size_of::<T>, descriptor(T).min_alignment == align_of::<T>, descriptor(T) != descriptor(U) for T != U"))

"""Witness programs for the derive macro (C16, C25).

A generated client crate derives PointType for several hundred structs; it is only type-checked. Its
`check_*` functions state the obligation: the layout of the struct, as computed by the *current* library
and macro, has the declared attributes at the offsets, size and alignment that the compiler gives the
struct. The summary of every `check_*` function is a closed term; it has to normalise to 0. The structs
that must be refused are compile-fail witnesses, each next to a compiling twin that differs in the
offending construct only."""
import random
import re

from checks.witness import *

TYPES = [("u8", "U8"), ("i8", "I8"), ("u16", "U16"), ("i16", "I16"), ("u32", "U32"), ("i32", "I32"), ("u64", "U64"), ("i64", "I64"), ("f32", "F32"), ("f64", "F64"),
         ("Vector3<u8>", "Vec3u8"), ("Vector3<u16>", "Vec3u16"), ("Vector3<i32>", "Vec3i32"), ("Vector3<f32>", "Vec3f32"), ("Vector3<f64>", "Vec3f64"), ("Vector4<u8>", "Vec4u8")]
REPRS = [["C"], ["packed"], ["C, packed"], ["C, packed(2)"], ["packed(2)"], ["packed(4)"], ["C, align(16)"], ["C", "packed"]]
MORE = [["packed, C"], ["C, packed(4)"], ["C, packed(8)"], ["packed(8)"], ["packed(1)"], ["align(8), C"], ["packed(2)", "C"], ["C, packed(1)"], ["C", "align(4)"]]
HEAD = """#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector2, Vector3, Vector4, Point3};
use pasture_derive::PointType;

"""


def euler(n):
    """a cyclic walk using every ordered pair of the n types once"""
    out, stack, left = [], [0], {i: list(range(n)) for i in range(n)}
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def bytemuck_impls(name):
    return "".join(f"unsafe impl bytemuck::{t} for {name} {{}}\n" for t in ("Zeroable", "AnyBitPattern", "NoUninit"))


def struct(name, reprs, fields, tuple_=False, pub="pub "):
    """fields: [(annotation, expected name expression, type index)]"""
    c = Case(name, f"struct {name} with repr {' + '.join(reprs)}")
    s = "".join(f"#[repr({r})]\n" for r in reprs) + "#[derive(PointType, Clone, Copy)]\n"
    fs = [f"    #[pasture({a})]\n    {pub}{'' if tuple_ else f'f{i}: '}{TYPES[t][0]}" for i, (a, _, t) in enumerate(fields)]
    if tuple_:
        s += f"pub struct {name}(\n" + ",\n".join(fs) + "\n);\n"
    else:
        s += f"pub struct {name} {{\n" + "".join(f + ",\n" for f in fs) + "}\n"
    s += bytemuck_impls(name)
    s += f"pub fn check_{name}() -> u64 {{\n    let layout = <{name} as PointType>::layout();\n"

    def cond(code, text, what):
        nonlocal s
        c.codes[code] = what
        s += f"    if {text} {{\n        return {code};\n    }}\n"

    cond(1, f"layout.size_of_point_entry() != std::mem::size_of::<{name}>() as u64", "the size of the struct")
    cond(2, f"layout.attributes().count() != {len(fields)}", "the number of attributes")
    for i, (a, want, t) in enumerate(fields):
        m = str(i) if tuple_ else f"f{i}"
        w = f"field {m}: {TYPES[t][0]} with #[pasture({a})]"
        s += f"    const O{i}: u64 = std::mem::offset_of!({name}, {m}) as u64;\n"
        cond(10 + 10 * i, f"layout.at({i}).name() != {want}", "the attribute name of " + w)
        cond(11 + 10 * i, f"layout.at({i}).datatype() != PointAttributeDataType::{TYPES[t][1]}", "the datatype of " + w)
        cond(12 + 10 * i, f"layout.at({i}).offset() != O{i}", "the offset of " + w)
        cond(13 + 10 * i, f"layout.at({i}).size() != std::mem::size_of::<{TYPES[t][0]}>() as u64", "the attribute size of " + w)
    ms = ", ".join(f"PointAttributeMember::custom({want}, PointAttributeDataType::{TYPES[t][1]}, O{i})" if want.startswith('"') else
                   f"{want.split('.')[0]}.with_custom_datatype(PointAttributeDataType::{TYPES[t][1]}).at_offset_in_type(O{i})" for i, (a, want, t) in enumerate(fields))
    cond(3, f"layout != PointLayout::from_members_and_alignment(&[{ms}], std::mem::align_of::<{name}>() as u64)", "the alignment (or another part of the layout) of the struct")
    s += "    0\n}\n\n"
    return c, s


# names that a trimming, case-folding or identifier-like normalisation would change or make equal
NAMES = ["a%d", "Custom %d", "x-%d", "Ünï%d", "A%d", "a%d ", " a%d", "a_%d", "Position3D.%d", "BUILTIN_NIR%d", r'q\"%d\\', r"a\t%d", "%d"]


def named(i):
    n = NAMES[i % len(NAMES)] % (i // len(NAMES))
    return f'attribute = "{n}"', f'"{n}"'


def builtins(prog):
    out = []
    for c in prog.consts.values():
        m = re.search(r"::layout::(?:\w+::)*attributes::(\w+)$", c["path"])
        if m and "PointAttributeDefinition" in ty_str(c["crate"].ty(c["ty"])):
            out.append(m.group(1))
    return sorted(set(out))


def accepted(tier, seed):
    cases, src = [], HEAD
    seq = euler(len(TYPES))
    k = 0
    for reprs in REPRS + (MORE if tier == "thorough" else []):
        for i in range(0, len(seq) - 1, 8):
            ts = seq[i:i + 9]
            c, s = struct(f"S{k}", reprs, [named(j) + (t,) for j, t in enumerate(ts)], tuple_=k % 7 == 3, pub=["pub ", "", "pub(crate) "][k % 3])
            cases.append(c)
            src += s
            k += 1
    rnd = random.Random(seed)
    for _ in range(60 if tier == "thorough" else 10):
        ts = [rnd.randrange(len(TYPES)) for _ in range(rnd.randrange(1, 20))]
        c, s = struct(f"S{k}", rnd.choice(REPRS + MORE), [named(j) + (t,) for j, t in enumerate(ts)])
        cases.append(c)
        src += s
        k += 1
    return cases, src


def builtin_cases(names):
    cases, src = [], HEAD
    for i, n in enumerate(names):
        c, s = struct(f"B_{n}", [["C"], ["packed"]][i % 2], [(f"BUILTIN_{n}", f"attributes::{n}.name()", i % len(TYPES))])
        cases.append(c)
        src += s
        c = Case(f"distinct_{n}", f"attributes::{n}")
        src += f"pub fn check_distinct_{n}() -> u64 {{\n"
        for j, o in enumerate(names):
            if j != i:
                c.codes[10 + j] = f"the name of attributes::{n}, which is also the name of attributes::{o}"
                src += f"    if attributes::{n}.name() == attributes::{o}.name() {{\n        return {10 + j};\n    }}\n"
        src += "    0\n}\n\n"
        cases.append(c)
    return cases, src


def one(ty="u8", annot='#[pasture(attribute = "a")]', repr_="#[repr(C)]", generics="", derive="#[derive(PointType, Clone, Copy)]", kind="struct"):
    g = re.sub(r":[^,>]*", "", generics).replace("const ", "")
    return f"{repr_}\n{derive}\npub {kind} Witness{generics} {{\n    {annot}\n    pub field: {ty},\n}}\n" + "".join(
        f"unsafe impl{generics} bytemuck::{t} for Witness{g} {{}}\n" for t in ("Zeroable", "AnyBitPattern", "NoUninit"))


def rejected():
    """[(what, offending code, twin)]"""
    ok = one()
    out = []
    for r in ("", "#[repr(Rust)]", "#[repr(align(8))]"):
        out.append((f"a struct with no fixed representation ({r or 'no repr'})", one(repr_=r), one(repr_="#[repr(C)]")))
    for t in ("bool", "char", "usize", "isize", "u128", "i128", "[u8; 4]", "(u8, u8)", "&'static u8", "*const u8", "Vector3<i8>", "Vector3<i16>", "Vector3<u32>", "Vector3<u64>", "Vector3<i64>",
              "Vector3<bool>", "Vector4<u16>", "Vector4<i8>", "Vector4<f32>", "Vector4<f64>", "Vector2<u8>", "Vector2<f64>", "Point3<f64>", "Option<u8>", "<u8 as std::ops::Add>::Output", "()", "fn()"):
        out.append((f"a field of the unsupported type {t}", one(ty=t), ok))
    for a in ("", "#[pasture]", "#[pasture()]", '#[pasture("a")]', "#[pasture(BUILTIN_NO_SUCH_THING)]", "#[pasture(POSITION_3D)]", '#[pasture(name = "a")]', "#[pasture(attribute = 5)]",
              '#[pasture(attribute("a"))]', "#[pasture(attribute)]", '#[pasture = "a"]'):
        out.append((f"a field with {'no annotation' if not a else 'the malformed annotation ' + a}", one(annot=a), ok))
    out.append(("a field with two different annotations", one(annot='#[pasture(attribute = "a")]\n    #[pasture(attribute = "b")]'), one(annot='#[pasture(attribute = "a")]')))
    out.append(("a generic struct", one(ty="f32", generics="<T: Copy>", annot='#[pasture(attribute = "a")]').replace("pub field: f32,", 'pub field: f32,\n    #[pasture(attribute = "b")]\n    pub other: T,'), ok))
    out.append(("a struct with a const parameter", one(generics="<const N: usize>"), ok))
    out.append(("an enum", '#[repr(C)]\n#[derive(PointType, Clone, Copy)]\npub enum Witness {\n    #[pasture(attribute = "a")]\n    A,\n}\n' + bytemuck_impls("Witness"), ok))
    out.append(("an enum with a primitive representation", '#[repr(u8)]\n#[derive(PointType, Clone, Copy)]\npub enum Witness {\n    A = 1,\n    B = 2,\n}\n' + bytemuck_impls("Witness"), ok))
    out.append(("a union", one(kind="union"), ok))
    return out


def strings(derive):
    """upper-case string constants of the macro: candidates for built-in attribute identifiers"""
    out = set()

    def go(x):
        if isinstance(x, dict):
            s = x.get("str")
            if isinstance(s, str) and re.fullmatch(r"[A-Z][A-Z0-9_]{2,}", s):
                out.add(s[len("BUILTIN_"):] if s.startswith("BUILTIN_") else s)
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)

    go(derive)
    return out


def check(ctx, pid):
    if pid == "C16":
        cases, src = accepted(ctx.tier, ctx.seed)
        viol, und, good = judge(cases, src, "vp-witness")
        v2, n = reject(rejected(), HEAD, "vp-reject")
        viol += v2
        return dict(violations=viol, coverage=dict(structs=len(cases), obligations=sum(len(c.codes) for c in cases), structs_proved=good, undecided=und[:20],
                                                   compile_fail_witnesses=n, compiling_twins=n,
                                                   rule="check_S() normalises to 0 for every witness struct S; every compile-fail witness is refused, its twin is accepted",
                                                   sample=src_of(src, "S5")))
    names = builtins(ctx.prog)
    cases, src = builtin_cases(names)
    viol, und, good = judge(cases, src, "vp-builtin")
    import json
    f = build.CACHE + "/witness-vp_builtin/pasture_derive.json"
    extra = []
    try:
        extra = sorted(strings(json.load(open(f))) - set(names))
    except FileNotFoundError:
        und.append(("pasture_derive", "no facts"))
    if extra:
        src2 = HEAD + "".join(f'#[cfg(feature = "x_{i}")]\npub mod x_{i} {{\nuse super::*;\n{one(annot=f"#[pasture(BUILTIN_{e})]")}}}\n' for i, e in enumerate(extra))
        for e, (ok, _, _) in zip(extra, build.witness("vp-extra", src2, [f"x_{i}" for i in range(len(extra))], [(f"x_{i}",) for i in range(len(extra))])):
            if ok:
                viol.append(dict(kind="unknown-builtin", key=e, at="derive(PointType)", what=f"the macro accepts BUILTIN_{e}, but the library has no such built-in attribute", detail=""))
    return dict(violations=viol, coverage=dict(builtin_attributes=names, obligations=sum(len(c.codes) for c in cases), proved=good, undecided=und[:20], other_identifiers_tried=extra,
                                               rule="every built-in is accepted by the macro and gets the library's name; the names are pairwise different; no other identifier is accepted"))

"""C24: misuse of the public interface that the type system has to refuse.

Every entry is a client program that would obtain a dangling or aliased reference, a reference of the wrong
type, or direct access to the parts that keep the unchecked code sound, if it compiled; its twin is the same
program without the offending construct and has to compile. Nothing is run."""
from checks.witness import *

HEAD = """#![allow(dead_code, unused)]
use pasture_core::containers::*;
use pasture_core::layout::attributes::{INTENSITY, POSITION_3D};
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;

#[repr(C, packed)]
#[derive(PointType, Clone, Copy, Debug, bytemuck::NoUninit, bytemuck::AnyBitPattern)]
pub struct P {
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
}
pub type V = Vector3<f64>;
pub fn use_<T>(_t: T) {}

"""
OWNING = {"VectorBuffer": "VectorBuffer::new_from_layout(P::layout())", "HashMapBuffer": "HashMapBuffer::new_from_layout(P::layout())"}
SLICES = ["slice", "slice_mut"]


def entries_():
    out = []

    def both(what, good, bad):
        """bad: offending lines inserted at the mark <> of the good program"""
        out.append((what, "pub fn client() {\n" + good.replace("<>", bad) + "\n}\n", "pub fn client() {\n" + good.replace("<>", "") + "\n}\n"))

    def swap(what, bad, good):
        out.append((what, bad, good))

    for B, new in OWNING.items():
        inter = B == "VectorBuffer"
        mk = f"let mut b = {new};"
        shared = [("a point view", "b.view::<P>()", "v.at(0)"), ("an attribute view", "b.view_attribute::<V>(&POSITION_3D)", "v.at(0)"),
                  ("a converting attribute view", "b.view_attribute_with_conversion::<Vector3<f32>>(&POSITION_3D).unwrap()", "v.at(0)"),
                  ("a point iterator", "b.view::<P>().into_iter()", "v.next()"), ("an attribute iterator", "b.view_attribute::<V>(&POSITION_3D).into_iter()", "v.next()"),
                  ("a slice", "b.slice(0..1)", "v.len()"), ("the layout", "b.point_layout()", "v.attributes().count()"),
                  ("a raw attribute view", "b.view_raw_attribute(&member)", "v[0].len()")]
        excl = [("a mutable point view", "b.view_mut::<P>()", "v.at(0)"), ("a mutable attribute view", "b.view_attribute_mut::<V>(&POSITION_3D)", "v.at(0)"),
                ("a mutable slice", "b.slice_mut(0..1)", "v.len()"), ("a raw mutable attribute view", "b.view_raw_attribute_mut(&member)", "v[0].len()")]
        if inter:
            shared += [("a nested slice", "s0.slice(0..1)", "v.len()"), ("a point reference", "b.get_point_ref(0)", "v.len()"), ("a reference to a range of points", "b.get_point_range_ref(0..1)", "v.len()"),
                       ("the interleaved view of the buffer", "b.as_interleaved().unwrap()", "v.len()")]
            excl += [("a mutable point reference", "b.get_point_mut(0)", "v.len()"), ("a mutable reference to a range of points", "b.get_point_range_mut(0..1)", "v.len()"),
                     ("the mutable interleaved view of the buffer", "b.as_interleaved_mut().unwrap()", "v.len()")]
        else:
            shared += [("an attribute reference", "b.get_attribute_ref(&POSITION_3D, 0)", "v.len()"), ("a reference to a range of attributes", "b.get_attribute_range_ref(&POSITION_3D, 0..1)", "v.len()"),
                       ("the columnar view of the buffer", "b.as_columnar().unwrap()", "v.len()")]
            excl += [("a mutable attribute reference", "b.get_attribute_mut(&POSITION_3D, 0)", "v.len()"), ("a mutable reference to a range of attributes", "b.get_attribute_range_mut(&POSITION_3D, 0..1)", "v.len()"),
                     ("the mutable columnar view of the buffer", "b.as_columnar_mut().unwrap()", "v.len()")]
        member = "let member = P::layout().at(0).clone();\n"
        for n, e, u in shared:
            if n == "a nested slice":
                e = "s0.slice(0..1)"
                mk_, mk = mk, mk + "\nlet s0 = b.slice(0..4);"
            both(f"{B}: {n} outlives the buffer", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\n<>", f"drop(b);\nuse_({u});")
            both(f"{B}: the buffer is cleared while {n} is alive", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\nb.clear();\n<>", f"use_({u});")
            both(f"{B}: the buffer is resized while {n} is alive", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\nb.resize(9);\n<>", f"use_({u});")
            both(f"{B}: a point is written while {n} is alive", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\nb.view_mut::<P>().set_at(0, bytemuck::Zeroable::zeroed());\n<>", f"use_({u});")
            both(f"{B}: points are swapped while {n} is alive", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\nb.swap(0, 1);\n<>", f"use_({u});")
            if n == "a nested slice":
                mk = mk_
        for n, e, u in excl:
            both(f"{B}: {n} outlives the buffer", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\n<>", f"drop(b);\nuse_({u});")
            both(f"{B}: the buffer is read while {n} is alive", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\nuse_(b.view::<P>().at(0));\n<>", f"use_({u});")
            both(f"{B}: {n} exists twice", f"{member}{mk}\nlet mut v = {e};\nuse_({u});\nlet mut w = {e};\n<>", f"use_({u});")
            swap(f"{B}: {n} through a shared reference", f"pub fn client(b: &{B}) {{\n{member}let mut v = {e};\nuse_({u});\n}}\n", f"pub fn client(b: &mut {B}) {{\n{member}let mut v = {e};\nuse_({u});\n}}\n")
        # elements of views
        view, mview = ("b.view::<P>()", "b.view_mut::<P>()") if inter else ("b.view_attribute::<V>(&POSITION_3D)", "b.view_attribute_mut::<V>(&POSITION_3D)")
        elem = "PU" if inter else "V"
        pu = """
    #[repr(C)]
    #[derive(PointType, Clone, Copy, bytemuck::NoUninit, bytemuck::AnyBitPattern)]
    struct PU {
        #[pasture(BUILTIN_GPS_TIME)]
        t: f64,
    }
""" if inter else ""
        mk2 = pu + (f"let mut b = {B}::new_from_layout(PU::layout());" if inter else mk)
        view, mview = view.replace("<P>", "<PU>"), mview.replace("<P>", "<PU>")
        both(f"{B}: a reference to an element outlives the buffer", f"{mk2}\nlet v = {view};\nlet r: &{elem} = v.at_ref(0);\nuse_(*r);\n<>", "drop(v);\ndrop(b);\nuse_(*r);")
        both(f"{B}: an iterator over references outlives the buffer", f"{mk2}\nlet v = {view};\nlet mut i = v.iter();\nlet r: Option<&{elem}> = i.next();\nuse_(r);\n<>", "drop(v);\ndrop(b);\nuse_(r);")
        both(f"{B}: an element of an iterator over references outlives the buffer", f"{mk2}\nlet r: Option<&{elem}>;\n{{\nlet v = {view};\nr = v.iter().next();\nuse_(r);\n}}\n<>", "b.clear();\nuse_(r);")
        both(f"{B}: two mutable references to elements", f"{mk2}\nlet mut v = {mview};\nlet r: &mut {elem} = v.at_mut(0);\n<>", f"let s: &mut {elem} = v.at_mut(0);\nstd::mem::swap(r, s);")
        both(f"{B}: a shared and a mutable reference to an element", f"{mk2}\nlet mut v = {mview};\nlet r: &{elem} = v.at_ref(0);\nuse_(*r);\n<>", f"let s: &mut {elem} = v.at_mut(0);\n*s = *r;")
        both(f"{B}: two mutable iterators", f"{mk2}\nlet mut v = {mview};\nlet mut i = v.iter_mut();\nlet r = i.next();\n<>", "let mut j = v.iter_mut();\nuse_((r, j.next()));")
        both(f"{B}: a shared and a mutable iterator", f"{mk2}\nlet mut v = {mview};\nlet mut i = v.iter();\nlet r = i.next();\nuse_(r);\n<>", "let mut j = v.iter_mut();\nuse_((r, j.next()));")
        both(f"{B}: an element of a mutable iterator outlives the buffer", f"{mk2}\nlet mut v = {mview};\nlet r: Option<&mut {elem}> = v.iter_mut().next();\nuse_(r.is_some());\n<>", "drop(b);\nuse_(r);")
        both(f"{B}: the buffer is cleared while an element of a mutable iterator is alive", f"{mk2}\nlet r: Option<&mut {elem}>;\nlet mut v = {mview};\nr = v.iter_mut().next();\nuse_(r.is_some());\n<>", "b.clear();\nuse_(r);")
        swap(f"{B}: mutable elements through a shared view", f"pub fn client() {{\n{mk2}\nlet v = {view};\nuse_(*v.at_mut(0));\n}}\n", f"pub fn client() {{\n{mk2}\nlet v = {view};\nuse_(*v.at_ref(0));\n}}\n")
        swap(f"{B}: mutable iteration through a shared view", f"pub fn client() {{\n{mk2}\nlet v = {view};\nuse_(v.iter_mut().count());\n}}\n", f"pub fn client() {{\n{mk2}\nlet v = {view};\nuse_(v.iter().count());\n}}\n")
        if inter:
            both(f"{B}: a reference to an attribute", f"{mk}\nlet v = b.view_attribute::<V>(&POSITION_3D);\nuse_(v.at(0));\n<>", "use_(v.at_ref(0));")
            both(f"{B}: an iterator over references to attributes", f"{mk}\nlet v = b.view_attribute::<V>(&POSITION_3D);\nuse_(v.at(0));\n<>", "use_(v.iter().count());")
            both(f"{B}: a mutable reference to an attribute", f"{mk}\nlet mut v = b.view_attribute_mut::<V>(&POSITION_3D);\nuse_(v.at(0));\n<>", "use_(v.at_mut(0));")
            both(f"{B}: as a columnar buffer", f"{mk}\nfn inter<'a, X: InterleavedBuffer<'a>>(_x: &X) {{}}\nfn col<'a, X: ColumnarBuffer<'a>>(_x: &X) {{}}\ninter(&b);\n<>", "col(&b);")
            both(f"{B}: a slice as a columnar buffer", f"{mk}\nfn inter<'a, X: InterleavedBuffer<'a>>(_x: &X) {{}}\nfn col<'a, X: ColumnarBuffer<'a>>(_x: &X) {{}}\nlet s = b.slice(0..1);\ninter(&s);\n<>", "col(&s);")
        else:
            both(f"{B}: a reference to a point", f"{mk}\nlet v = b.view::<P>();\nuse_(v.at(0));\n<>", "use_(v.at_ref(0));")
            both(f"{B}: an iterator over references to points", f"{mk}\nlet v = b.view::<P>();\nuse_(v.at(0));\n<>", "use_(v.iter().count());")
            both(f"{B}: a mutable reference to a point", f"{mk}\nlet mut v = b.view_mut::<P>();\nuse_(v.at(0));\n<>", "use_(v.at_mut(0));")
            both(f"{B}: as an interleaved buffer", f"{mk}\nfn inter<'a, X: InterleavedBuffer<'a>>(_x: &X) {{}}\nfn col<'a, X: ColumnarBuffer<'a>>(_x: &X) {{}}\ncol(&b);\n<>", "inter(&b);")
            both(f"{B}: a slice as an interleaved buffer", f"{mk}\nfn inter<'a, X: InterleavedBuffer<'a>>(_x: &X) {{}}\nfn col<'a, X: ColumnarBuffer<'a>>(_x: &X) {{}}\nlet s = b.slice(0..1);\ncol(&s);\n<>", "inter(&s);")
        both(f"{B}: a shared slice is mutated", f"{mk}\nlet mut s = b.slice(0..1);\nuse_(s.len());\n<>", "s.view_mut::<P>().set_at(0, bytemuck::Zeroable::zeroed());")
        both(f"{B}: two mutable slices", f"{mk}\nlet mut s = b.slice_mut(0..1);\nuse_(s.len());\nlet mut r = b.slice_mut(1..2);\n<>", "use_(s.len());")
        if inter:
            both(f"{B}: two mutable slices of a mutable slice", f"{mk}\nlet mut t = b.slice_mut(0..2);\nlet mut s = t.slice_mut(0..1);\nuse_(s.len());\n<>", "let mut r = t.slice_mut(1..2);\nuse_(s.len());")
            both(f"{B}: a mutable slice of a shared slice", f"{mk}\nlet mut t = b.slice(0..2);\nuse_(t.slice(0..1).len());\n<>", "use_(t.slice_mut(0..1).len());")
        for what, call in (("set_point", "b.set_point(0, &[0])"), ("set_point_range", "b.set_point_range(0..1, &[0])"), ("set_attribute", "b.set_attribute(&POSITION_3D, 0, &[0])"),
                           ("set_attribute_range", "b.set_attribute_range(&POSITION_3D, 0..1, &[0])"), ("push_points", "b.push_points(&[0])"),
                           ("get_attribute_unchecked", "b.get_attribute_unchecked(&member, 0, &mut [0])")):
            swap(f"{B}: {what} in safe code", f"pub fn client() {{\n{member}{mk}\n{call};\n}}\n", f"pub fn client() {{\n{member}{mk}\nunsafe {{\n{call};\n}}\n}}\n")
        for f in {"VectorBuffer": ["storage", "point_layout", "length"], "HashMapBuffer": ["attributes_storage", "point_layout", "length"]}[B]:
            swap(f"{B}: the field {f} is reachable", f"pub fn client(b: &mut {B}) {{\nuse_(&mut b.{f});\n}}\n", f"pub fn client(b: &mut {B}) {{\nuse_(&mut *b);\n}}\n")
    # external memory
    ext = "let mut memory = vec![0u8; 26];\nlet mut b = ExternalMemoryBuffer::new(memory.as_mut_slice(), P::layout());\n"
    both("ExternalMemoryBuffer: the memory is dropped before the buffer", ext + "use_(b.len());\n<>", "drop(memory);\nuse_(b.len());")
    both("ExternalMemoryBuffer: the memory is written while the buffer is alive", ext + "use_(b.len());\nmemory[0] = 1;\n<>", "use_(b.len());")
    both("ExternalMemoryBuffer: a point view outlives the memory", ext + "let v = b.view::<P>();\nuse_(v.at(0));\n<>", "drop(memory);\nuse_(v.at(0));")
    both("ExternalMemoryBuffer: two mutable views", ext + "let mut v = b.view_mut::<P>();\nuse_(v.at(0));\nlet mut w = b.view_mut::<P>();\n<>", "use_(v.at(0));")
    rd = "let memory = vec![0u8; 26];\nlet mut b = ExternalMemoryBuffer::new(memory.as_slice(), P::layout());\nuse_(b.view::<P>().at(0));\n<>"
    both("ExternalMemoryBuffer: a mutable view of read-only memory", rd, "use_(b.view_mut::<P>().at(0));")
    both("ExternalMemoryBuffer: a mutable attribute view of read-only memory", rd, "use_(b.view_attribute_mut::<V>(&POSITION_3D).at(0));")
    both("ExternalMemoryBuffer: swapping in read-only memory", rd, "b.swap(0, 0);")
    both("ExternalMemoryBuffer: a mutable point of read-only memory", rd, "use_(b.get_point_mut(0));")
    both("ExternalMemoryBuffer: as a columnar buffer", ext + "fn inter<'a, X: InterleavedBuffer<'a>>(_x: &X) {}\nfn col<'a, X: ColumnarBuffer<'a>>(_x: &X) {}\ninter(&b);\n<>", "col(&b);")
    both("ExternalMemoryBuffer: resized", ext + "use_(b.len());\n<>", "b.resize(9);")
    # element types
    def impl_(trait, derives, fields, body):
        return f"#[repr(C)]\n#[derive({derives})]\npub struct W {{\n    pub f: {fields},\n}}\nimpl {trait} for W {{\n    {body}\n}}\n"
    lay = "fn layout() -> PointLayout { PointLayout::default() }"
    dt = "fn data_type() -> PointAttributeDataType { PointAttributeDataType::U64 }"
    for what, der in (("without any guarantee on its bytes", "Clone, Copy"), ("with invalid bit patterns", "Clone, Copy, bytemuck::NoUninit"), ("with uninitialised bytes", "Clone, Copy, bytemuck::AnyBitPattern")):
        swap(f"a point type {what}", impl_("PointType", der, "u64", lay), impl_("PointType", "Clone, Copy, bytemuck::NoUninit, bytemuck::AnyBitPattern", "u64", lay))
    for what, der in (("without any guarantee on its bytes", "Clone, Copy"), ("with invalid bit patterns", "Clone, Copy, bytemuck::NoUninit"), ("with uninitialised bytes", "Clone, Copy, bytemuck::AnyBitPattern")):
        swap(f"a primitive type {what}", impl_("PrimitiveType", der, "u64", dt), impl_("PrimitiveType", "Clone, Copy, bytemuck::Pod, bytemuck::Zeroable", "u64", dt))
    for t in ("bool", "char", "&'static u8", "String", "Option<u8>", "std::num::NonZeroU8", "[u16; 3]", "(u8, u8)"):
        swap(f"attribute values of type {t}", f"pub fn client(b: &VectorBuffer) {{\nuse_(b.view_attribute::<{t}>(&INTENSITY).at(0));\n}}\n", "pub fn client(b: &VectorBuffer) {\nuse_(b.view_attribute::<u16>(&INTENSITY).at(0));\n}\n")
        swap(f"points of type {t}", f"pub fn client(b: &VectorBuffer) {{\nuse_(b.view::<{t}>().at(0));\n}}\n", "pub fn client(b: &VectorBuffer) {\nuse_(b.view::<P>().at(0));\n}\n")
    swap("conversion of raw points in safe code", "pub fn client(c: &RawPointConverter) {\nc.convert(&[0], &mut [0]);\n}\n", "pub fn client(c: &RawPointConverter) {\nunsafe {\nc.convert(&[0], &mut [0]);\n}\n}\n")
    swap("an attribute conversion function in safe code", "pub fn client(f: AttributeConversionFn) {\nf(&[0], &mut [0]);\n}\n", "pub fn client(f: AttributeConversionFn) {\nunsafe {\nf(&[0], &mut [0]);\n}\n}\n")
    swap("points without a known layout", "pub fn client(b: &mut VectorBuffer) {\nb.view_mut::<[u8; 26]>();\n}\n", "pub fn client(b: &mut VectorBuffer) {\nb.view_mut::<P>();\n}\n")
    return out


STATE = ["AABB", "Transformation", "BufferLayoutConverter", "AttributeMapping", "RawPointConverter", "RawAttributeConverter", "BufferSliceMut", "BufferSlice", "UntypedPointSlice", "UntypedPointBuffer",
         "AttributeViewConvertingIterator", "PointIteratorByMut", "PointIteratorByRef", "PointIteratorByValue", "AttributeIteratorByMut", "AttributeIteratorByRef", "AttributeIteratorByValue",
         "ExternalMemoryBuffer", "BufferSliceColumnarMut", "BufferSliceColumnar", "HashMapBuffer", "HashMapBufferAttributePusher", "BufferSliceInterleavedMut", "BufferSliceInterleaved", "VectorBuffer",
         "RawAttributeViewMut", "RawAttributeView", "PointViewMut", "AttributeViewMut", "AttributeViewConverting", "AttributeView", "PointView", "PointLayout", "PointAttributeMember",
         "PointAttributeDefinition", "Projection"]


def state(prog):
    """The fields that the unchecked code relies on can only be changed by the library."""
    viol, n = [], 0
    for p, a in prog.adts.items():
        if p.startswith("pasture_") and p.split("::")[-1] in STATE and prog.adts_local.get(p, a).get("reach", True):
            for v in a["v"]:
                for f in v["f"]:
                    n += 1
                    if f["pub"]:
                        viol.append(dict(kind="public-field", key=f"{p}.{f['n']}", at=p, what=f"safe client code can overwrite the field {f['n']} of {p}, which unchecked code relies on", detail=""))
    for im in prog.impls:
        if im.get("trait_path") in ("std::marker::Send", "std::marker::Sync") and not im.get("neg"):
            viol.append(dict(kind="thread", key=ty_str(im["self_ty"]), at=im["loc"], what=f"{ty_str(im['self_ty'])} is declared {im['trait_path'].split('::')[-1]} by hand", detail=""))
    return viol, n


def check(ctx, pid):
    rs = entries_()
    viol, n = reject(rs, HEAD, "vp-misuse", "public interface")
    v2, fields = state(ctx.prog)
    return dict(violations=viol + v2, coverage=dict(compile_fail_witnesses=n, compiling_twins=n, private_fields=fields, unsafe_thread_impls=0,
                                                    rule="every misuse is refused by the type checker, its twin compiles; fields that unchecked code relies on are private; no hand-written Send/Sync",
                                                    sample=[r[0] for r in rs[:6]]))

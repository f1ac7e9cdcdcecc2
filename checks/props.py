"""Which entry points anchor which property (resolved program keys, see engine.summary.base_key)."""
import re

OWN = r"(VectorBuffer|HashMapBuffer|ExternalMemoryBuffer)"
INTER = r"(VectorBuffer|ExternalMemoryBuffer)"
SL = r"BufferSlice(Interleaved|Columnar)?(Mut)?"
BUFT = r"(BorrowedBuffer|BorrowedMutBuffer|OwningBuffer|InterleavedBuffer|InterleavedBufferMut|ColumnarBuffer|ColumnarBufferMut|SliceBuffer|SliceBufferMut|MakeBufferFromLayout)"
LAYOUT_ACC = r"(PointAttributeDataType|PointAttributeDefinition|PointAttributeMember)::.*"
CONVERT = r"BufferLayoutConverter::.*|AttributeMapping::.*"

KEYS = {
    "C01": [r".* as PrimitiveType::.*", r"(PointAttributeDataType|PointAttributeDefinition|PointAttributeMember)( as \w+)?::.*"],
    "C02": [r"PointLayout( as (Default|FromIterator|Clone|Display))?::(?!.*(get_attribute|has_attribute|index_of|compare_without|offset_of)).*", r"Alignable::align_to", r"\w+ as Alignable::align_to",
            r"PointAttribute(DataType|Definition|Member)::(size|min_alignment|byte_range.*|offset|at_offset_in_type|custom|with_custom_datatype|attribute_definition)"],
    "C03": [r"PointLayout::(has_attribute.*|get_attribute.*|index_of|offset_of|at|attributes|compare_without_offsets|size_of_point_entry)", r"PointLayout as PartialEq::.*",
            r"PointAttribute(Definition|Member|DataType)( as PartialEq)?::(name|datatype|offset|eq|ne|attribute_definition|size|at_offset_in_type)"],
    "C04": [INTER + r" as (BorrowedBuffer|BorrowedMutBuffer|InterleavedBuffer|InterleavedBufferMut)::.*", INTER + r"::.*", r"InterleavedBuffer(Mut)?::.*", r"BorrowedBuffer::(get_attribute.*)",
            r"RawAttributeView(Mut)?( as .*)?::.*"],
    "C05": [r"HashMapBuffer as (BorrowedBuffer|BorrowedMutBuffer|ColumnarBuffer|ColumnarBufferMut)::.*", r"HashMapBuffer::.*", r"ColumnarBuffer(Mut)?::.*", r"BorrowedBuffer::(get_attribute.*)",
            r"RawAttributeView(Mut)?( as .*)?::.*"],
    "C06": [r"(VectorBuffer|HashMapBuffer|ExternalMemoryBuffer)(HashMap)?( as (OwningBuffer|MakeBufferFromLayout|FromIterator))?::.*", OWN + r" as BorrowedBuffer::(len|is_empty)", r"HashMapBufferAttributePusher::.*", r"OwningBuffer::.*", r"PointViewMut::push_point"],
    "C07": [OWN + r" as OwningBuffer::append.*", OWN + r" as OwningBuffer::(push_points|resize)", r"OwningBuffer::.*", r"HashMapBuffer::(filter.*|begin.*|with_capacity|new.*)", r"HashMapBufferAttributePusher::.*", OWN + r" as BorrowedMutBuffer::(set_point_range|set_attribute_range)",
            OWN + r" as MakeBufferFromLayout::.*"],
    "C08": [SL + r"( as .*)?::.*", r".* as SliceBuffer(Mut)?::.*", r"get_and_check_global_.*"],
    "C09": [r"(PointView|PointViewMut|AttributeView|AttributeViewMut)( as .*)?::.*", r"BorrowedBuffer::view.*", r"BorrowedMutBuffer::(view.*|transform.*)", OWN + r" as (BorrowedBuffer|BorrowedMutBuffer)::(view.*|transform.*|get_attribute.*)", SL + r" as (BorrowedBuffer|BorrowedMutBuffer)::(view.*|transform.*)"],
    "C10": [r".*Iterator.* as (Iterator|From|DoubleEndedIterator|ExactSizeIterator|FusedIterator)::.*", r"AttributeIterator\w+::.*", r"(Point|Attribute)View(Mut|Converting)?( as IntoIterator)?::(iter|iter_mut|into_iter)"],
    "C11": [r"get_converter_for_attributes|get_generic_converter|__static_ref_initialize|GENERIC_CONVERTERS as .*|convert_unit|convert_(scalar|vec3)_using_as", r"RawAttributeConverter::.*"],
    "C12": [r"BufferLayoutConverter::(convert.*)", r"AttributeMapping::.*", r"to_untyped_transform_fn"],
    "C13": [r"BufferLayoutConverter::(for_layouts.*|set_custom.*|make_.*)", r"AttributeMapping::.*", r"to_untyped_transform_fn", r"BufferLayoutConverter::convert_into_range"],
    "C14": [r"UntypedPoint(Buffer|Slice)?( as .*)?::.*", r"Raw(Attribute|Point)Converter::.*", r"AttributeViewConverting.*", r"BorrowedBuffer::view_attribute_with_conversion", r"(VectorBuffer|HashMapBuffer|ExternalMemoryBuffer) as BorrowedBuffer::view_attribute_with_conversion", r"get_converter_for_attributes|get_generic_converter"],
    "C15": [r".* as (BorrowedBuffer|BorrowedMutBuffer)::as_(interleaved|columnar)(_mut)?", r"(BorrowedBuffer|BorrowedMutBuffer)::as_(interleaved|columnar)(_mut)?"],
    "C16": [],
    "C17": [r"AABB.*"],
    "C18": [r".* as MinMax::.*"],
    "C19": [r".* as Alignable::.*", r"expand_bits_by_3|reverse_bits"],
    "C20": [r"calculate_bounds.*|minmax_attribute|AABB.*::(from_min_max.*|extend_with_point|union|from_iter)", r".* as MinMax::.*"],
    "C21": [r"(distance_point|generate|ransac)_.*"],
    "C22": [r"find_leaf|create_markers_for_axis|voxelgrid_filter|centroid_.*|set_all_attributes"],
    "C23": [r"Projection.*|reproject_.*"],
    "C24": [OWN + r" as (BorrowedBuffer|BorrowedMutBuffer|InterleavedBuffer|InterleavedBufferMut|ColumnarBuffer|ColumnarBufferMut)::.*", SL + r" as (BorrowedBuffer|BorrowedMutBuffer|InterleavedBuffer|InterleavedBufferMut|ColumnarBuffer|ColumnarBufferMut)::.*", r"RawAttributeView(Mut)?( as .*)?::.*",
            r"(PointView|PointViewMut|AttributeView|AttributeViewMut|AttributeViewConverting)( as .*)?::.*", r".*Iterator.* as (Iterator|From)::.*", r"AttributeIterator\w+::.*", r"UntypedPoint(Buffer|Slice)?( as .*)?::.*", r"Raw(Attribute|Point)Converter::.*",
            r"BufferLayoutConverter::convert.*", r"VectorBuffer as FromIterator::.*|HashMapBuffer as FromIterator::.*"],
    "C25": [],
    "C26": [r"compute_normals|normal_estimation|solve_(plane_parameter|polynomial(_quadratic)?)|get_largest_eigen_vector|eigen_3x3"],
    "C29": [r"compute_(centroid|covariance_matrix|normals)|is_dense|is_finite"],
    "C30": [r"(VectorBuffer|HashMapBuffer|PointLayout|PointAttributeDefinition|PointAttributeMember) as (Clone|PartialEq)::.*", r"PointLayout::compare_without_offsets", r".*::is_empty"],
}

EXTRA = {"C01": ["datatypes"], "C16": ["derive"], "C23": ["handles"], "C24": ["misuse"], "C25": ["derive"]}
FLOORS = {}


VN = "gated value numbering summaries of MIR compared with confirmed reference summaries (normal forms / random interpretation)"
VN_NOTE = ("Compositional static comparison: every anchored function, with its helpers inlined, must compute the same values, make the same memory and field "
           "updates and panic on the same conditions as the confirmed reference. Trusts the models of the std/nalgebra functions used; differences that only "
           "manifest for inputs outside the sampled interpretations, or that involve untracked values, are not reported.")
DERIVE = "witness crate type-checked against the current macro and library: closed MIR terms normalised to a constant, compile-fail witnesses with compiling twins"
CLAIMED = {p: (VN, VN_NOTE) for p in KEYS}
CLAIMED["C01"] = (VN + "; plus a type-checked witness crate: descriptor sizes and alignments against the compiler's layouts", VN_NOTE)
CLAIMED["C23"] = (VN + "; plus compile-fail witnesses with compiling twins for the ownership of handles", VN_NOTE)
CLAIMED["C24"] = (VN + "; plus compile-fail witnesses with compiling twins (lifetimes, aliasing, element types, unsafe functions), field privacy and thread-marker queries on the typed program", VN_NOTE)
CLAIMED["C16"] = (DERIVE, "Static: the generated witness structs are only type-checked, never run. Decides the property for the enumerated structs (all ordered pairs of field "
                  "types, all reprs the macro accepts, generics, custom names, nested uses) and the enumerated forbidden structs, not for arbitrary user structs.")
CLAIMED["C25"] = (DERIVE, "Static: the built-in names used by the macro and the library's constants are compared as closed terms of a type-checked witness; identifiers outside the "
                  "enumerated set are not covered.")


def explain(pid):
    if pid in ("C16", "C25"):
        return ("Static: a generated client crate that uses the derive macro is type-checked against the current library and macro; each obligation is a "
                "function whose MIR summary is a closed term that has to normalise to 0 (layout as computed by the library == layout given by the compiler, "
                "declared names and datatypes), or a struct that has to be refused by the macro next to a compiling twin.")
    return ("Static: every entry point below is summarised from its type-checked MIR by gated value numbering with its helpers inlined "
            "(which bytes are read and written where, under which guard and loop, what is returned, when it panics) and its summary is "
            "compared with the confirmed reference summary, by normal form or else by random interpretation of the value graphs.")


def rule(pid):
    if pid in ("C16", "C25"):
        return "every witness obligation normalises to 0; every forbidden struct is refused and its twin compiles"
    return "summary(current source) == confirmed summary, for every anchored entry point"


def level(pid):
    return "other"


def keys_for(pid, all_keys):
    rx = [re.compile(r"(?:" + r + r")\Z") for r in KEYS.get(pid, [])]
    return sorted(k for k in all_keys if any(r.match(k) for r in rx))


if __name__ == "__main__":
    import json
    ks = [json.loads(l)["key"] for l in open("/verif/specs/summaries.jsonl")]
    un = set(ks)
    for p in KEYS:
        m = keys_for(p, ks)
        un -= set(m)
        print(p, len(m), [r for r in KEYS[p] if not any(re.fullmatch(r, k) for k in ks)])
    print("unassigned:", sorted(un))

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after an edit: python3 tools/make_properties.py)."""
import json, os
P = []
CORE = "pasture-core/src/"
ALG = "pasture-algorithms/src/"

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

PB = CORE + "containers/point_buffer.rs"
SL = CORE + "containers/slice.rs"
BV = CORE + "containers/buffer_views.rs"
AI = CORE + "containers/attribute_iterators.rs"
PI = CORE + "containers/point_iterators.rs"
RV = CORE + "containers/raw_attribute_view.rs"
UP = CORE + "containers/untyped_point.rs"
LY = CORE + "layout/point_layout.rs"
AC = CORE + "layout/conversion/attribute_conversion.rs"
BC = CORE + "layout/conversion/buffer_conversion.rs"

prop("C01", "Datatype descriptors agree with the Rust types they describe",
     "Every Rust type that can be used as a point attribute value is described at runtime by its own datatype descriptor, no two such types share a descriptor, and the size and minimum alignment the descriptor reports are the size and alignment of that Rust type. "
     "A byte-array or custom descriptor reports the size and alignment it was declared with, and an attribute (with or without an offset in a point type) always reports the size of its datatype, its own name and its own offset.",
     ["inputs", "programs"], "all datatype descriptors, all attribute value types, all attributes built from them",
     "Tests touch a few descriptors through round trips; a wrong entry for one rarely used datatype corrupts every buffer with such an attribute and no test reads that entry.",
     [LY], [("PointAttributeDataType::size/min_alignment tables", LY), ("PrimitiveType impls", LY), ("PointAttributeDefinition/PointAttributeMember constructors and accessors", LY)],
     observe=["PointAttributeDataType::size", "PointAttributeDataType::min_alignment", "PrimitiveType::data_type"])

prop("C02", "A point layout never holds duplicate, overlapping or misplaced attributes",
     "In every point layout that can be built through the public construction functions, attribute names are unique, the byte ranges of different attributes do not overlap, each appended attribute starts at an offset that respects its requested alignment, and the total point size covers all attributes and is a multiple of the layout's alignment; a construction that would break this is refused with a panic. "
     "An attribute appended with default alignment raises the layout's alignment to at least its own requirement; one appended in packed mode is aligned to no more than the packing limit.",
     ["inputs", "histories"], "all sequences of layout constructions and attribute additions, all attribute sets and offsets",
     "Tests build a handful of layouts in offset order; duplicate names, overlapping or out-of-order members and mixed packing are not enumerated.",
     [LY], [("from_members_and_alignment checks", LY), ("add_attribute offset/size computation", LY), ("private fields of PointLayout", LY)],
     state=[("PointLayout.attributes", "members with offsets", LY), ("PointLayout.memory_layout", "size and alignment of a point", LY)],
     observe=["PointLayout::attributes", "PointLayout::size_of_point_entry"])

prop("C03", "Layout lookups identify attributes by name and datatype",
     "Looking up an attribute in a point layout succeeds exactly when the layout holds an attribute with the same name and the same datatype, and a by-name lookup exactly when one with that name exists; membership test, member lookup, index and offset queries all agree on the same attribute. "
     "Comparing two layouts without offsets is true exactly when they hold the same number of attributes and every attribute of one occurs in the other with equal datatype.",
     ["inputs"], "all layouts and all queried attributes, including the same name with another datatype",
     "The tests query attributes that are either present with the right datatype or fully absent.",
     [LY], [("has_attribute / get_attribute / index_of / offset_of predicates", LY), ("compare_without_offsets", LY)],
     observe=["PointLayout::get_attribute", "PointLayout::index_of", "PointLayout::offset_of", "PointLayout::compare_without_offsets"])

prop("C04", "Interleaved buffers address exactly the bytes of the requested point",
     "In a buffer with interleaved memory, reading or writing point i, a range of points, or one attribute of point i touches exactly the bytes at i times the point size (plus the attribute's offset, for the attribute's size) and no other byte; the byte-slice, mutable-slice, copying and raw-view accessors all denote the same bytes, and swapping exchanges exactly two whole points. "
     "This holds for owned and for externally provided memory alike.",
     ["inputs"], "all layouts, lengths, indices, ranges and attributes",
     "Tests use two point types and sequential indices; a wrong stride, offset or size for another layout or a range not starting at 0 is not sampled.",
     [PB, RV], [("get_byte_range_* helpers", PB), ("BorrowedBuffer/BorrowedMutBuffer/InterleavedBuffer(Mut) impls of VectorBuffer and ExternalMemoryBuffer", PB), ("RawAttributeView::from_interleaved_buffer", RV)],
     state=[("VectorBuffer.storage", "point bytes, interleaved", PB), ("ExternalMemoryBuffer.external_memory", "borrowed point bytes", PB)],
     observe=["BorrowedBuffer::get_point*", "BorrowedBuffer::get_attribute*", "BorrowedMutBuffer::set_*", "InterleavedBuffer::get_point_ref"])

prop("C05", "Columnar buffers address exactly the bytes of the requested attribute",
     "In a buffer with columnar memory, every access to attribute a of point i (or of a range of points) touches exactly the bytes at i times the size of a in the column of a; whole-point reads and writes transfer every attribute of the layout between its column and its byte range within the point, and swapping exchanges the two points in every column.",
     ["inputs"], "all layouts, lengths, indices, ranges and attributes",
     "Tests use two point types; a wrong column, stride or in-point offset for another attribute or a range not starting at 0 is not sampled.",
     [PB, RV], [("get_byte_range_for_attribute(s)", PB), ("BorrowedBuffer/BorrowedMutBuffer/ColumnarBuffer(Mut) impls of HashMapBuffer", PB), ("RawAttributeView::from_columnar_buffer", RV)],
     state=[("HashMapBuffer.attributes_storage", "one byte column per attribute of the layout", PB)],
     observe=["BorrowedBuffer::get_point*", "BorrowedBuffer::get_attribute*", "BorrowedMutBuffer::set_*", "ColumnarBuffer::get_attribute_ref"])

prop("C06", "A buffer's length always matches the point data it stores",
     "After any sequence of construction, collection from an iterator, pushing, attribute-wise pushing, appending, resizing and clearing, the reported number of points equals the amount of stored data: the byte storage holds exactly length times the point size, and every column of a columnar buffer holds exactly length times its attribute's size. "
     "New points created by resizing are zero; data that does not form a whole number of points, or attribute columns of unequal length, are refused.",
     ["histories", "inputs"], "all histories of mutating operations on the owning buffers, and all inputs to each",
     "Tests exercise each operation once with matching sizes; a length update missing on one operation, or a column skipped for one attribute, needs a specific history to show.",
     [PB], [("push_points / resize / clear / append_* of VectorBuffer and HashMapBuffer", PB), ("FromIterator impls", PB), ("HashMapBufferAttributePusher", PB)],
     state=[("length", "number of points", PB), ("storage / attributes_storage", "point bytes", PB)],
     observe=["BorrowedBuffer::len", "OwningBuffer"])

prop("C07", "Bulk transfers between buffers need equal layouts and copy every point once",
     "Appending one buffer to another, or filtering a buffer into another, is refused unless the two point layouts are equal; when allowed, appending adds the other buffer's points in order behind the existing ones with every attribute, whatever the memory layouts of the two buffers. "
     "Filtering writes exactly the points accepted by the predicate, in their original order and with every attribute, to consecutive positions from the start of the target, and is refused if the target is too small.",
     ["inputs"], "all pairs of buffers and layouts, all predicates",
     "Tests use equal layouts, few point types and simple predicates; unequal layouts with equal sizes and non-contiguous matches are not covered.",
     [PB], [("assert_eq!(self.point_layout(), other.point_layout())", PB), ("append / append_interleaved / append_columnar", PB), ("filter / filter_into", PB)],
     observe=["OwningBuffer::append*", "HashMapBuffer::filter*"])

prop("C08", "A slice only reaches the points it was created for",
     "Every access through a buffer slice (immutable or mutable, generic, interleaved or columnar, nested to any depth) with local index or range is checked against the slice's own length and forwarded to the underlying buffer at the position shifted by the slice's start; out-of-range accesses panic instead of reaching points outside the slice. "
     "A slice of a slice covers exactly the requested sub-range of the outer slice and may extend up to its end, and a slice cannot be created with a range outside its buffer.",
     ["inputs", "histories"], "all buffers, slice ranges, nesting depths, local indices and ranges",
     "Tests slice once, with one range, and never access a mutable slice beyond its length or slice a slice up to its end.",
     [SL], [("get_and_check_global_point_index/range", SL), ("BufferSlice/BufferSliceMut constructors and slice methods", SL), ("wrapper slice types", SL)],
     state=[("BufferSlice.point_range", "points of the parent buffer visible through the slice", SL)],
     observe=["SliceBuffer::slice", "SliceBufferMut::slice_mut", "BorrowedBuffer on slices"])

prop("C09", "Typed views only exist for matching types and read and write the right value",
     "A typed view of points can only be created if the type's layout equals the buffer's layout, and a typed view of an attribute only if the value type is the attribute's datatype and the buffer holds that attribute with that datatype; otherwise creation panics. "
     "Through a view, element i is exactly the value stored for point i (for that attribute), by value or by reference, writes go to the same place, and two views compare equal exactly when they have the same length (and attribute) and equal elements.",
     ["inputs", "programs"], "all buffers, point types, attributes, indices, and all programs using the public API",
     "Tests create matching views; a check dropped on one of the view kinds turns a type error into silent reinterpretation of memory, which no test provokes on every kind.",
     [BV], [("PointView(Mut)::new / AttributeView(Mut)::new assertions", BV), ("crate-private constructors and private fields", BV)],
     observe=["BorrowedBuffer::view*", "BorrowedMutBuffer::view_*mut"])

prop("C10", "Iterators yield each element once, in order, and stop for good at the end",
     "Iterating over points or attribute values, by value, by reference or by mutable reference, yields the elements 0, 1, 2, ... up to the length exactly once each and then reports the end on every further call; skipping n elements yields the element n positions further or the end, for every n, and never touches memory outside the buffer. "
     "Mutable iterators never hand out two references to the same element.",
     ["inputs", "histories"], "all buffers and all interleavings of next and nth calls with any n",
     "Tests call nth with at most the exact length from the start; skipping beyond the end, or advancing after the end was reached, is not exercised.",
     [AI, PI, BV], [("next / nth implementations", AI), ("next / nth implementations", PI), ("AttributeViewConvertingIterator", BV)],
     state=[("current_index", "next element to yield", AI)],
     observe=["Iterator::next", "Iterator::nth"])

prop("C11", "Attribute conversion tables are complete, symmetric and convert like a cast",
     "Between every two different numeric scalar datatypes, and between every two different three-component vector datatypes, a conversion exists in both directions, and it reads one value of the source type and writes one value of the target type that equals a plain numeric cast of the source value, component by component and in the same component order. "
     "Converting between equal datatypes copies the bytes, requests for impossible conversions are refused, and conversion never assumes alignment of the byte buffers.",
     ["inputs", "configurations"], "all pairs of datatypes and all values",
     "A table of 110 entries cannot be sampled by hand: a swapped type argument or wrong key affects one pair and one value range only.",
     [AC], [("GENERIC_CONVERTERS table", AC), ("convert_scalar_using_as / convert_vec3_using_as / convert_unit", AC), ("get_converter_for_attributes", AC)],
     observe=["get_generic_converter", "get_converter_for_attributes"])

prop("C12", "Buffer layout conversion moves every mapped attribute of every point in range",
     "Converting a range of points between two layouts writes, for every configured attribute mapping and every k below the range length, the converted value of the source attribute of source point (source start + k) to the target attribute of target point (target start + k), and writes nothing else; the result does not depend on whether source and target are columnar or interleaved. "
     "A transformation is applied exactly once per value, before conversion if requested on the source attribute and after it otherwise, and the conversion is refused if a buffer's layout differs from the converter's, the range lengths differ, or a range exceeds its buffer.",
     ["inputs", "configurations"], "all layout pairs, mappings, transformations, ranges and the four combinations of memory layouts",
     "Tests convert whole buffers or one sub-range with few mappings; offset errors in one of the four code paths, or a transformation applied on the wrong side, need a specific combination.",
     [BC], [("convert_into_range checks and dispatch", BC), ("convert_columnar_to_columnar / _to_interleaved / interleaved_to_*", BC)],
     observe=["BufferLayoutConverter::convert*"])

prop("C13", "Converter configuration maps each target attribute from the requested source",
     "A default converter maps every target attribute to the source attribute with the same name and is refused if one is missing, while the defaulting variant skips exactly the missing ones; setting a custom mapping replaces the mapping of that target attribute or adds one, so that each target attribute has at most one mapping. "
     "Mappings carry a value conversion exactly when the two datatypes differ, and a transformation is refused unless its type is the datatype of the side it applies to.",
     ["inputs", "histories"], "all layout pairs and all sequences of mapping calls",
     "Tests set one custom mapping per converter on layouts with few attributes.",
     [BC], [("for_layouts / for_layouts_with_default", BC), ("set_custom_mapping(_with_transformation)", BC), ("make_default_mapping / make_transformed_mapping", BC)],
     state=[("BufferLayoutConverter.mappings", "at most one mapping per target attribute", BC)],
     observe=["BufferLayoutConverter"])

prop("C14", "Converting access to single points and attributes picks the right bytes",
     "Reading or writing one attribute of an untyped point addresses exactly the attribute's bytes within the point and converts from the stored datatype to the requested type (or back) when they differ, for both the owning and the borrowing point; a missing attribute or a too small buffer yields an error and never a partial access. "
     "A point-by-point converter and a converting attribute view convert every attribute common to both sides, from its place in the source layout to its place in the target layout, including attributes whose datatype is the same on both sides.",
     ["inputs"], "all layouts, attributes, value types and values",
     "Tests use two attributes; equal-datatype attributes in the point converter and error paths are never exercised.",
     [UP, AC, BV], [("UntypedPointBuffer / UntypedPointSlice", UP), ("RawPointConverter", AC), ("AttributeViewConverting", BV)],
     observe=["UntypedPoint", "RawPointConverter::convert", "AttributeViewConverting::at"])

prop("C15", "Buffers are truthful about their memory layout",
     "A buffer type that stores its points interleaved reports itself (immutably, and mutably where it can be mutated) as interleaved and never as columnar, a columnar one as columnar and never as interleaved, and this also holds for slices of such buffers; layout-generic algorithms therefore see the same buffer they were given.",
     ["programs", "configurations"], "all buffer and slice types of the library",
     "The default answer is 'neither': a missing or wrong override compiles and only fails when a layout-generic algorithm meets that type.",
     [PB, SL], [("as_interleaved / as_columnar / as_*_mut overrides", PB), ("overrides on slice types", SL)],
     observe=["BorrowedBuffer::as_interleaved", "BorrowedBuffer::as_columnar", "BorrowedMutBuffer::as_*_mut"])

prop("C16", "Derived point types describe the real memory of the struct",
     "For every struct that derives the point type trait, the layout reported at runtime lists one attribute per field in declaration order with the attribute name and datatype requested by the field (or implied by its built-in attribute and Rust type), at the field's real offset and with the struct's real size and alignment, for plain C and for packed representations. "
     "Structs for which that is impossible (no fixed representation, generics, unsupported field types or missing field annotations, enums) are rejected at compile time.",
     ["programs"], "all annotated struct definitions accepted by the macro",
     "Tests derive three or four structs; each combination of field order, field type and representation is a separate program.",
     ["pasture-derive/src/lib.rs", "pasture-derive/src/layout.rs"], [("field type / built-in attribute tables", "pasture-derive/src/lib.rs"), ("repr parsing and offset computation", "pasture-derive/src/layout.rs")],
     observe=["PointType::layout"])

prop("C17", "Axis-aligned boxes keep their extent and answer queries by their corners",
     "Growing a box by a point or merging two boxes yields, on every axis, the smaller of the minima and the larger of the maxima; containment and intersection are true exactly when they hold on all three axes with inclusive borders, the centre is halfway and the extent is the difference of the corners on each axis. "
     "Creating a box with a minimum above its maximum on any axis is refused; making a box cubic keeps its centre and uses its longest axis for all three.",
     ["inputs"], "all boxes and points",
     "Tests use a few symmetric coordinates, so an axis mix-up or a wrong comparison on one axis goes unnoticed.",
     [CORE + "math/bounds.rs"], [("AABB methods", CORE + "math/bounds.rs")], observe=["AABB"])

prop("C18", "Component-wise infimum and supremum select the smaller and larger component",
     "For every supported scalar type the infimum of two values is the smaller and the supremum the larger one, and for vectors this holds for each component separately, with the components in their own positions.",
     ["inputs"], "all values of all supported types",
     "Tests cover one or two types; the per-type implementations are separate code.",
     [CORE + "math/minmax.rs"], [("MinMax impls", CORE + "math/minmax.rs")], observe=["MinMax"])

prop("C19", "Alignment and bit-interleaving helpers are exact for every input",
     "Aligning a value up yields the smallest multiple of the alignment not below the value, for every unsigned type, and leaves values unchanged for alignment zero; spreading the low 21 bits of a number by a factor of three moves bit i to bit 3i and clears all others, and reversing the bits of a number moves bit i to bit (width-1-i).",
     ["inputs"], "all integer inputs",
     "Tests check a few numbers; one wrong mask constant or table entry affects few inputs.",
     [CORE + "math/arithmetic.rs", CORE + "math/bitmanip.rs"], [("Alignable impls", CORE + "math/arithmetic.rs"), ("expand_bits_by_3 / reverse_bits", CORE + "math/bitmanip.rs")],
     observe=["Alignable::align_to", "expand_bits_by_3", "reverse_bits"])

prop("C20", "Bounds and attribute extrema take every point into account",
     "The computed bounds of a buffer are the smallest box containing the positions of all its points, and the computed minimum and maximum of an attribute are component-wise extrema over all points; both are absent exactly when the buffer has no points (or, for bounds, no positions).",
     ["inputs"], "all buffers and attributes",
     "Tests use a single random or fixed data set; skipping the first or last point, or updating only one side, shows only for particular point orders.",
     [ALG + "bounds.rs", ALG + "minmax.rs"], [("calculate_bounds", ALG + "bounds.rs"), ("minmax_attribute", ALG + "minmax.rs")],
     observe=["calculate_bounds", "minmax_attribute"])

prop("C21", "RANSAC returns a model together with exactly its inliers",
     "Whichever candidate plane or line is returned, the returned index list holds exactly the points whose distance to that model is below the given threshold, in ascending order, and the reported ranking equals the number of these points; the returned candidate has the highest ranking among the sampled ones, and the serial and parallel variants compute candidates identically.",
     ["inputs", "schedules"], "all point sets, thresholds, iteration counts, random choices and thread schedules",
     "The candidate choice is random and the tests assert only on an easy data set; a ranking out of step with its inlier list is not visible there.",
     [ALG + "segmentation.rs"], [("generate_plane_model / generate_line_model", ALG + "segmentation.rs"), ("ransac_*_serial / ransac_*_par", ALG + "segmentation.rs")],
     observe=["ransac_plane_par", "ransac_plane_serial", "ransac_line_par", "ransac_line_serial"])

prop("C22", "Voxel-grid filtering aggregates each attribute from itself with its own type",
     "Every voxel holds exactly the points that fall into it, each input point belongs to exactly one voxel, and each output point's attribute is aggregated from the same attribute of exactly the points of its voxel, read and written with that attribute's own datatype; every built-in attribute and every supported datatype is handled.",
     ["inputs"], "all buffers, layouts and leaf sizes",
     "The tests use one layout and one cloud; the per-attribute code has more than twenty arms that differ only in names and types.",
     [ALG + "voxel_grid.rs"], [("set_all_attributes", ALG + "voxel_grid.rs"), ("centroid_* helpers", ALG + "voxel_grid.rs"), ("find_leaf / create_markers", ALG + "voxel_grid.rs")],
     observe=["voxelgrid_filter"])

prop("C23", "Reprojection transforms each position in place and manages native handles safely",
     "Reprojecting a point cloud replaces the position of every point by its transformed position and no other data, between two clouds it writes point i of the source to point i of the target; every native projection handle that is created is released exactly once and in the right order, creation failures are reported as errors, and handles cannot be shared between threads or used after release.",
     ["inputs", "fault_sequences", "programs"], "all buffers and coordinate systems, all creation failures, all programs using the public API",
     "Tests transform one small cloud between valid coordinate systems and never observe native resources.",
     [ALG + "reprojection.rs"], [("Projection::new / transform / Drop", ALG + "reprojection.rs"), ("reproject_point_cloud_*", ALG + "reprojection.rs")],
     state=[("Projection.proj_context / projection", "owned native handles", ALG + "reprojection.rs")],
     observe=["reproject_point_cloud_within", "reproject_point_cloud_between"])

prop("C24", "Safe code cannot reach memory outside a buffer",
     "No program that only uses safe public functions can make the library read or write outside the memory of a buffer or of a value, create an unaligned or wrongly typed reference, or obtain two mutable references to the same data: every raw-memory operation in the library is preceded on every path by checks that establish its preconditions.",
     ["programs", "inputs"], "all safe client programs, all inputs",
     "Undefined behaviour does not fail a test; the unsafe operations depend on checks elsewhere that tests never miss.",
     [PB, AI, PI, BV, UP, AC, BC], [("unsafe blocks and their guarding assertions", PB), ("raw pointer iterators", AI)],
     observe=["all safe public functions"])

prop("C25", "Built-in attributes are well-defined and agree between library and derive macro",
     "The built-in attributes have pairwise different names, and every built-in attribute name accepted by the derive macro produces an attribute with the same name as the library's built-in attribute of that identifier, and every built-in attribute is accepted.",
     ["configurations", "programs"], "all built-in attributes",
     "23 string constants are duplicated between two crates; tests use four of them.",
     [LY, "pasture-derive/src/lib.rs"], [("attributes module", LY), ("BUILTIN_* resolution", "pasture-derive/src/lib.rs")], observe=["attributes::*", "#[pasture(BUILTIN_*)]"])

prop("C26", "Normal estimation yields the direction of least variance of the neighbourhood",
     "For every point with at least three finite neighbours, compute_normals returns, up to rounding, a vector in the direction of an eigenvector of the covariance matrix of its nearest neighbours for the smallest eigenvalue, and as curvature the absolute value of that eigenvalue divided by the trace (0 if the trace is 0): the eigenvalues are those of the characteristic polynomial of the covariance matrix divided by its largest absolute entry (of the quadratic with root 0 if the determinant vanishes or the smallest root is not positive), the normal is the longest of the three cross products of two rows of that matrix minus the smallest eigenvalue on its diagonal, and the scale does not influence the direction or the curvature.",
     ["inputs"], "all point clouds and neighbourhood sizes, at every scale of the coordinates",
     "Tests check four points in a coordinate plane, for which wrong eigenvalues, a lost shift of the diagonal and the wrong scale all give the same normal.",
     [ALG + "normal_estimation.rs"], [("solve_polynomial / eigen_3x3 / get_largest_eigen_vector", ALG + "normal_estimation.rs"), ("solve_plane_parameter", ALG + "normal_estimation.rs")], observe=["compute_normals"])

prop("C27", "The convex hull contains every input point",
     "Every point of the cloud lies inside or on the surface of the triangle mesh returned as its convex hull, the mesh is closed and its triangles are oriented outward.",
     ["inputs"], "all point clouds",
     "Tests check a few small point sets.",
     [ALG + "convexhull.rs"], [("iteration / edge bookkeeping", ALG + "convexhull.rs")], observe=["convex_hull_as_triangle_mesh", "convex_hull_as_points"])

prop("C28", "Reading back a written point cloud file yields the same points",
     "Writing points to a LAS, LAZ, 3D Tiles or ASCII file and reading the file yields the same points up to the precision of the format, for every supported point format.",
     ["inputs", "configurations"], "all point formats, layouts and point values",
     "Tests write fixed sample points.",
     ["pasture-io/src/las/raw_readers.rs", "pasture-io/src/las/raw_writers.rs"], [("per-format readers and writers", "pasture-io/src/las/raw_readers.rs")], observe=["PointReader", "PointWriter"])

prop("C29", "Normal estimation works on each point's own neighbourhood",
     "compute_normals returns one pair of normal and curvature per point, in point order, each computed only from the positions of the k nearest neighbours of that point, and refuses clouds or neighbourhoods with fewer than three points; the centroid is the componentwise mean of the positions (of the finite ones if the cloud contains NaN), and the covariance matrix is the symmetric sum of the outer products of the differences from that centroid over the same points.",
     ["inputs"], "all point clouds, neighbourhood sizes and non-finite coordinates",
     "Tests use one flat and one degenerate cloud; the branch for clouds with NaN duplicates the arithmetic of the dense branch.",
     [ALG + "normal_estimation.rs"], [("compute_centroid / compute_covariance_matrix", ALG + "normal_estimation.rs"), ("compute_normals", ALG + "normal_estimation.rs")],
     observe=["compute_normals", "compute_centroid"])

prop("C30", "Copies and comparisons of buffers are faithful",
     "A clone of a buffer or of a point layout has the same layout, length and data as the original and is independent of it; two buffers of the same kind are equal exactly if their layouts, lengths and stored data are equal; an attribute definition, member or layout equals another one exactly if all its parts are equal; a buffer is empty exactly if its length is 0.",
     ["inputs", "histories"], "all buffers, layouts and mutations after cloning",
     "Tests compare buffers that differ in obvious ways or not at all.",
     [PB, LY], [("Clone / PartialEq of the buffers", PB), ("PartialEq of PointLayout", LY)], observe=["VectorBuffer", "HashMapBuffer", "PointLayout"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))

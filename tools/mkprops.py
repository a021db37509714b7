#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
CORE = "pasture-core/src/"
PB, SL, BV = CORE+"containers/point_buffer.rs", CORE+"containers/slice.rs", CORE+"containers/buffer_views.rs"
PI, AI, RV, UP = CORE+"containers/point_iterators.rs", CORE+"containers/attribute_iterators.rs", CORE+"containers/raw_attribute_view.rs", CORE+"containers/untyped_point.rs"
PL, AC, BC = CORE+"layout/point_layout.rs", CORE+"layout/conversion/attribute_conversion.rs", CORE+"layout/conversion/buffer_conversion.rs"
MAPHOOK = "cfg(kani) replaces std HashMap by a finite-map stand-in with the same API (assumed contract of the dependency)"

prop("C01", "Point layouts place attributes like a C struct, never overlapping",
 "For every sequence of attributes with distinct names and every field alignment rule (natural, or packed to N bytes), the resulting point layout places each attribute inside the point entry, at an offset allowed by the rule, with no two attributes sharing a byte, and offsets and total size equal those of the equivalent C struct (natural or packed(N)). Adding an attribute to an existing layout, including one whose attributes were declared with explicit offsets in any order, never disturbs or overlaps the attributes already there. A layout built from explicitly placed attributes is accepted exactly when names are unique and no byte is shared.",
 ["inputs", "configurations"], "all attribute datatypes (including byte arrays of any nonzero size and custom types), all packing values, all orders of declaration",
 "tests use a handful of fixed attribute lists and only natural or packed(1) alignment with in-order offsets",
 [PL, CORE+"math/arithmetic.rs"],
 [("PointLayout::add_attribute / packed_offset_of_next_field", PL), ("PointLayout::from_members_and_alignment overlap check", PL), ("Alignable::align_to", CORE+"math/arithmetic.rs")],
 ["offset()/size() of every attribute of the layout", "PointLayout::size_of_point_entry"], MAPHOOK)
prop("C02", "Attribute lookups in a layout agree with each other and reject duplicates",
 "Looking an attribute up in a point layout by name, by full definition (name and datatype), by index, by offset query or by iteration always gives the same, first-declared attribute; something that was never added is never found, and an attribute with the right name but a different datatype is not found by a full-definition lookup. Adding a second attribute with an existing name is rejected, and two layouts compare equal exactly when they have the same attributes at the same offsets with the same total size.",
 ["inputs"], "all layouts built from up to the stated number of attributes of any datatype, all queries",
 "tests query a few attributes that are present (or obviously absent) in a few fixed layouts",
 [PL], [("has_attribute*, get_attribute*, index_of, at, offset_of", PL), ("compare_without_offsets, PartialEq", PL)],
 ["return values of the lookup methods"])
prop("C03", "Derived point types describe their true memory layout",
 "For every plain-data struct on which the point type derive macro is accepted, with C representation, natural or packed, the generated layout lists exactly the annotated fields in order, each with the attribute name and datatype requested, at the byte offset the compiler really uses, and with a total size and alignment equal to those of the struct. Consequently a typed value written to a buffer and read back attribute by attribute yields the struct's own field values.",
 ["programs", "inputs"], "all structs accepted by the derive macro; all field values",
 "tests derive a few structs; the macro recomputes offsets itself and nothing relates them to the compiler's layout for other field orders, packings and field types",
 ["pasture-derive/src/lib.rs", "pasture-derive/src/layout.rs", CORE+"layout/point_type.rs", PL],
 [("calculate_offsets_and_alignment", "pasture-derive/src/lib.rs"), ("get_struct_member_layout / field layout tables", "pasture-derive/src/layout.rs")],
 ["<T as PointType>::layout() vs offset_of!/size_of/align_of", "view_attribute on a buffer of T"])
prop("C04", "Writing one point or attribute changes exactly that data and reads back",
 "In every buffer kind (interleaved, columnar, external memory), after writing the data of one point, a range of points, one attribute of one point, or one attribute of a range, reading it back returns exactly what was written. Every other point and attribute, and every byte of external memory outside the addressed data, is unchanged. Accesses beyond the end of the buffer, or with too little data, panic and never touch memory outside the addressed data.",
 ["inputs", "histories"], "all buffer lengths, indices, ranges, attributes and data values",
 "tests write whole buffers of 16 random points and compare; they do not check the frame (what did not change), nor boundary indices for all lengths",
 [PB, RV], [("get/set_point(_range), get/set_attribute(_range), *_ref/_mut of VectorBuffer", PB), ("same for HashMapBuffer", PB), ("same for ExternalMemoryBuffer", PB), ("RawAttributeView(Mut) indexing", RV)],
 ["bytes returned by get_point, get_attribute, get_*_ref, raw attribute views"], MAPHOOK)
prop("C05", "Growing, shrinking and filling buffers keeps points complete and in order",
 "Pushing or appending points adds exactly those points, in order, after the existing ones, which stay unchanged, whichever memory layout the source has; resizing keeps the first points and zero-fills new ones; clearing empties; attribute-by-attribute pushing adds complete points or panics. Collecting an iterator of points gives a buffer with exactly the iterator's points. An operation whose data or layout does not match panics and never leaves a buffer whose columns disagree about the number of points.",
 ["inputs", "histories"], "all sequences of push/append/resize/clear/collect/column-push operations, all lengths and values, all source memory layouts",
 "tests append and resize a few fixed buffers once; collect is only tested with exact-size iterators",
 [PB], [("push_points, append, append_interleaved, append_columnar, resize, clear", PB), ("FromIterator for VectorBuffer/HashMapBuffer", PB), ("HashMapBufferAttributePusher::done", PB)],
 ["len(), get_point, get_attribute after each operation"], MAPHOOK)
prop("C06", "Filtering, swapping, sorting and transforming act on whole points exactly",
 "Filtering a buffer yields exactly the points for which the predicate holds, in their original order and with all attributes intact, in whichever buffer kind is the target, and filtering into a larger existing buffer leaves the remaining points alone. Swapping exchanges exactly the two named points; sorting is a stable rearrangement of whole points into the requested order; transforming an attribute applies the function once to that attribute of every point and to nothing else.",
 ["inputs"], "all buffers, predicates, index pairs, comparison keys and transform functions",
 "tests filter one random buffer with one predicate, transform with one function and sort one buffer",
 [PB, BV], [("HashMapBuffer::filter, filter_into", PB), ("swap of the three buffer kinds", PB), ("PointViewMut::sort_by", BV), ("transform_attribute", PB)],
 ["contents of the resulting buffer"], MAPHOOK)
prop("C07", "Buffer slices see and touch only their own range of points",
 "A slice over points [a,b) of any buffer behaves as a buffer of b-a points whose i-th point is the parent's point a+i, for reads and for writes, in every access style the parent's memory layout offers, and slices of slices compose the same way for every range inside the slice. No access through a slice, including a mutable one, ever reads or changes a point outside its range: such an access panics.",
 ["inputs", "histories"], "all parent buffers, slice ranges, nested slice ranges and accesses through the slice",
 "tests slice one middle range of a small buffer and read through it; out-of-range accesses through a slice that are still inside the parent are never tried",
 [SL], [("get_and_check_global_point_index/range", SL), ("BufferSlice, BufferSliceMut and the interleaved/columnar wrappers", SL)],
 ["data read through the slice", "parent contents after writes through the slice"], MAPHOOK)
prop("C08", "Iterators and views visit every point exactly once, in order, in bounds",
 "Iterating over points or over one attribute, by value, by reference or by mutable reference, over any buffer or slice, yields exactly len() items, the i-th being the i-th point's data, and then ends for good; skipping ahead by any amount gives the same items as stepping, and ends the iteration when it goes past the end, never reaching memory outside the buffer. The reported remaining length is always right, and an item obtained mutably writes through to exactly its own point.",
 ["inputs", "histories"], "all buffer lengths, all interleavings of stepping and skipping by any count",
 "tests iterate small buffers from start to end; skipping past the end is never tried",
 [PI, AI, BV], [("PointIteratorBy{Value,Ref,Mut}", PI), ("AttributeIteratorBy{Value,Ref,Mut}", AI), ("PointView(Mut), AttributeView(Mut)", BV)],
 ["items returned by next/nth/size_hint", "buffer contents after writing through mutable items"], MAPHOOK)
prop("C09", "Typed access never reinterprets data as the wrong type",
 "Creating a typed point view succeeds exactly when the point type has the same layout as the buffer, and creating a typed attribute view succeeds exactly when the buffer has that attribute with exactly that datatype; otherwise it panics. A view with conversion is granted whenever the buffer has an attribute of that name and a conversion exists, and then yields the converted value of each point; otherwise it is refused. Two views compare equal exactly when all their items are equal.",
 ["inputs"], "all pairs of buffer layout and requested type, all values",
 "tests only request the matching type plus one converted type",
 [BV, PB], [("PointView::new, AttributeView::new, AttributeViewConverting::new", BV), ("view, view_attribute, view_attribute_with_conversion", PB)],
 ["panic / Result of the view constructors", "values from the views"], MAPHOOK)
prop("C10", "Attribute type conversion equals a numeric cast for every value",
 "For every supported pair of scalar attribute types, converting any value gives exactly what a Rust numeric cast gives (truncation for narrowing integers, saturation for floats to integers, nearest for integers to floats), bit for bit; vector types convert component by component in the same way; equal types need no conversion. No conversion reads or writes beyond the two attribute values, whatever their memory alignment, and pairs without a conversion are reported as such.",
 ["inputs"], "all ordered pairs of supported datatypes and all bit patterns of the source value",
 "tests convert a couple of values for a couple of pairs; a wrong table entry or a wrong cast for one pair and value range goes unnoticed",
 [AC], [("get_converter_for_attributes, get_generic_converter table", AC), ("convert_scalar_using_as, convert_vec3_using_as, convert_unit", AC)],
 ["output bytes of the converter function"], MAPHOOK)
prop("C11", "Buffer layout conversion maps exactly the right attributes of the right points",
 "Converting a buffer, or a range of it into a range of another buffer, makes every mapped target attribute of every target point in the range equal to the source attribute of the corresponding source point, after type conversion, and after the mapping's transformation applied on the side requested. Everything else in the target is untouched (or zero in a new buffer), the source never changes, and the result is the same for all four combinations of interleaved and columnar memory. Conversions between layouts or ranges that do not fit panic before anything is written.",
 ["inputs", "configurations"], "all source/target layouts, memory layouts, ranges, custom mappings, transformations and values",
 "tests convert whole buffers plus a few custom mappings; sub-ranges with differing offsets and transform-before/after combinations for all four memory layout pairs are sampled once or not at all",
 [BC, AC], [("for_layouts(_with_default), set_custom_mapping(_with_transformation)", BC), ("convert_into_range and the four memory-layout specific loops", BC)],
 ["target buffer contents after conversion"], MAPHOOK)
prop("C12", "Raw and untyped points carry every attribute faithfully",
 "Converting a single raw point from one layout to another gives every target attribute whose name exists in the source the source's value, converted to the target's type where the types differ and copied where they do not, and leaves all other target bytes alone. An untyped point returns for each attribute the value last set for it, typed or raw, and setting one attribute leaves the others unchanged. Unknown attributes and wrongly sized data are reported as errors, not as corrupted data.",
 ["inputs", "histories"], "all pairs of layouts, all attribute values, all sequences of set/get",
 "tests convert one point between two layouts with differing types and set/get a few attributes",
 [AC, UP], [("RawPointConverter::from_to, convert", AC), ("UntypedPointBuffer/UntypedPointSlice get/set", UP)],
 ["bytes of the target point", "Result of get/set calls"], MAPHOOK)
prop("C13", "Bounding boxes follow box geometry for every input",
 "An axis-aligned box contains a point exactly when every coordinate lies between its minimum and maximum (inclusive); two boxes intersect exactly when their intervals meet on every axis; the union is the smallest box containing both, and extending by a point gives the smallest box containing the box and that point. Extent and center derive from the corners, the cubic box has the same center with equal sides no smaller than any original side, and a box whose minimum exceeds its maximum is never created by the checked constructor.",
 ["inputs"], "all finite floating point and integer boxes and points",
 "tests and examples use a few boxes with small positive integers; sign, ordering and axis mix-ups survive",
 [CORE+"math/bounds.rs"], [("AABB operations", CORE+"math/bounds.rs")], ["return values of the AABB operations"])
prop("C14", "Minimum, maximum and bounds over point data are exact",
 "The per-component minimum and maximum reported for an attribute of a buffer are attained or tight: no point lies below or above them in any component and each bound is the value of some point; an empty buffer gives no result. The computed bounding box of a buffer's positions is the smallest box containing all of them, whatever the buffer's memory layout and whether or not positions need type conversion.",
 ["inputs"], "all buffers of points without NaN, all supported attribute types",
 "tests compare one random buffer against itself computed with the same helpers",
 ["pasture-algorithms/src/minmax.rs", "pasture-algorithms/src/bounds.rs", CORE+"math/minmax.rs"],
 [("minmax_attribute", "pasture-algorithms/src/minmax.rs"), ("calculate_bounds", "pasture-algorithms/src/bounds.rs"), ("MinMax::infimum/supremum", CORE+"math/minmax.rs")],
 ["returned Option<(min,max)> / Option<AABB>"], MAPHOOK)
prop("C15", "Alignment rounding and bit manipulation are exact for every value",
 "Rounding a value up to an alignment gives the smallest multiple of the alignment that is not below the value, for every unsigned width, and an alignment of zero leaves the value alone. Spreading a value's bits by three moves each of the lower 21 bits i to bit 3i and sets no other bit, and reversing bits maps bit i to the mirrored position, each for every possible input.",
 ["inputs"], "all values of every unsigned integer width and all alignments",
 "tests check a few values",
 [CORE+"math/arithmetic.rs", CORE+"math/bitmanip.rs"], [("Alignable::align_to", CORE+"math/arithmetic.rs"), ("expand_bits_by_3, reverse_bits", CORE+"math/bitmanip.rs")],
 ["return values"])
prop("C16", "Voxel grid filtering keeps one faithful representative per occupied cell",
 "Every point of the input is assigned to exactly one grid cell, the one nearest to it on each axis; the output has exactly one point per occupied cell. Each attribute of the representative is computed from that cell's points only, by the attribute's rule: the mean for positions, colors and intensities, a most frequent value for classification-like attributes, and the true maximum for identifiers, times and flags.",
 ["inputs"], "all point sets, leaf sizes and attribute values (including negative ones)",
 "tests use one regular grid of points with small positive attribute values",
 ["pasture-algorithms/src/voxel_grid.rs"], [("find_leaf, create_markers_for_axis", "pasture-algorithms/src/voxel_grid.rs"), ("centroid_max_pool, centroid_most_common, centroid_average_*", "pasture-algorithms/src/voxel_grid.rs"), ("set_all_attributes", "pasture-algorithms/src/voxel_grid.rs")],
 ["contents of the filtered buffer"], "cfg(kani) re-exports of the private cell/reduction functions")
prop("C17", "RANSAC reports exactly the inliers of the best model it tried",
 "Whatever random hypotheses are drawn, the returned index list consists exactly of the points whose distance to the returned plane or line is below the threshold, in increasing order without duplicates, and the model's ranking is their number. No hypothesis that was tried has more inliers than the one returned; buffers with too few points are rejected.",
 ["inputs", "schedules"], "all point sets, thresholds, iteration counts and random draws",
 "tests run on one point set where almost every draw finds the same model",
 ["pasture-algorithms/src/segmentation.rs"], [("generate_plane_model, generate_line_model", "pasture-algorithms/src/segmentation.rs"), ("ransac_plane_*, ransac_line_*", "pasture-algorithms/src/segmentation.rs")],
 ["returned (model, indices)"], "cfg(kani) re-exports of private functions")
prop("C18", "Reprojection rewrites every position and nothing else",
 "Reprojecting a point cloud in place replaces the position of every point by the projection of its old position, once, and changes no other attribute; reprojecting between two clouds leaves the source unchanged and writes the i-th projected position to the i-th target point. Clouds of different size are rejected.",
 ["inputs"], "all point clouds, any coordinate transformation",
 "tests reproject four fixed points with one pair of reference systems",
 ["pasture-algorithms/src/reprojection.rs"], [("reproject_point_cloud_within, reproject_point_cloud_between", "pasture-algorithms/src/reprojection.rs")],
 ["positions and other attributes after reprojection"], "the PROJ library is replaced by an arbitrary function (assumed contract)")
prop("C19", "Convex hulls enclose every input point",
 "For every point set, the convex hull computed over it has only input points as vertices, every input point lies inside or on the hull, and every edge of the triangle mesh is shared by exactly two triangles with consistent orientation; fewer than three linearly independent points give an error for the mesh form.",
 ["inputs"], "all point sets, including collinear, coplanar and duplicate points",
 "tests use a few hand-made shapes and random clouds; degenerate positions are sampled, not covered",
 ["pasture-algorithms/src/convexhull.rs"], [("create_convex_hull, iteration", "pasture-algorithms/src/convexhull.rs")],
 ["returned triangles / indices"])
prop("C20", "Estimated normals are the least-variance direction of the neighbourhood",
 "For every point the estimated normal is a unit vector along the eigenvector of the smallest eigenvalue of the covariance of its k nearest neighbours, and the curvature is that eigenvalue's share of their sum, ignoring non-finite points.",
 ["inputs"], "all point clouds with at least three points and all k >= 3",
 "tests use a few planar point sets",
 ["pasture-algorithms/src/normal_estimation.rs"], [("compute_normals, normal_estimation, compute_covariance_matrix", "pasture-algorithms/src/normal_estimation.rs")],
 ["returned (normal, curvature)"])
prop("C21", "Point files written by pasture read back as the same points",
 "Writing a point buffer to a LAS/LAZ, ASCII or 3D Tiles file and reading it back with the matching reader yields the same number of points with equal attribute values up to the format's documented quantization, for every point format, buffer layout and batch size; seeking and chunked reads return the same points as one sequential read.",
 ["inputs", "histories", "configurations"], "all point formats, buffers, read chunkings and seek positions",
 "the crate's tests sample fixed files; they are not even built in this environment",
 ["pasture-io/src/las/raw_readers.rs", "pasture-io/src/las/raw_writers.rs", "pasture-io/src/ascii/raw_reader.rs", "pasture-io/src/tiles3d/pnts_reader.rs"],
 [("raw readers/writers", "pasture-io/src/las")], ["buffers returned by the readers"])
prop("C22", "Serialized point layouts deserialize to an equal layout",
 "Serializing any point layout and deserializing the result gives a layout equal to the original: same attributes in the same order, with the same names, datatypes, offsets, total size and alignment.",
 ["inputs"], "all point layouts, including custom datatypes and explicit offsets",
 "one test serializes one layout",
 [PL], [("serde_layout module, PointLayout Serialize/Deserialize", PL)], ["the deserialized layout"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

TRUST = " Trusts rustc/Kani's translation, CBMC and the SAT solver; std's HashMap is replaced by a finite-map stand-in (cfg(kani)); termination is not verified; buffer sizes below 2^40 points."
NOTE = {
"C04": "Proved for every buffer length, index, content: set/get of points, point ranges (interleaved), attributes, references, raw views, and panics on out-of-range access. Loops over a range of points (set/get_attribute_range of interleaved buffers, point ranges of columnar buffers) are bounded: ranges of 2-3 points at any position in a buffer of any length, plus one long concrete range of 9 or 17 points; labelled bounded in the evidence." + TRUST,
"C01": "add_attribute proved from any valid layout of 0, 1 (and bounded: 5) attributes at any offsets, of any sizes, any datatype, any rule: the induction step for layouts built attribute by attribute. Whole constructions (from_attributes, packed, explicit members, overlap and duplicate rejection) bounded to 3 attributes (thorough: 5) of any datatype, any size below 2^40, custom alignments up to 16. Zero-sized attributes are outside of the property." + TRUST,
"C02": "Every lookup function for layouts of 3 attributes with any datatypes and offsets and any query datatype (bounded to 3 attributes and fixed name strings); equality and compare_without_offsets on 2-3 attributes; duplicates panic." + TRUST,
"C06": "swap proved for every buffer length, index pair and content (interleaved and columnar); filter/filter_into bounded to 3-5 points with fixed predicates in the quick tier, with any predicate on 3 points in the thorough tier, any content and any length of the target; transform_attribute bounded to 3 points, any content, a keyed function; sort_by bounded to 3 points, any content, stability included." + TRUST,
"C05": "Columnar and interleaved buffers of any length: push/append/extend of 0-2 points, resize up and down, clear, collecting, extend from other buffers keep columns equally long, old points unchanged and new ones complete; loops over added points are bounded (0-3 points), allocation sizes are concrete per harness for Vec growth." + TRUST,
"C13": "Proved for every finite or infinite (non-NaN) coordinate: constructors, contains, intersects, union, extend_with_point, extent, center; octants and cubic boxes for f32/f64; boxes over point sets bounded to 3 points. NaN coordinates are outside the property." + TRUST,
"C07": "Proved for every parent length, slice range, index and content: length, reads, writes, references, raw views, swap, slices of slices, panics outside the slice (any index or range up to usize::MAX). Accesses that loop over a range of points are bounded to ranges of 2 points at any position. Slices of columnar and interleaved parents with one layout each." + TRUST,
"C08": "Proved for every buffer length: one step (next, nth of any amount) from any position of every point/attribute iterator (by value, reference, mutable reference), views' at/set_at, raw attribute views, writes through mutable items; whole iterations are bounded to 3 points." + TRUST,
"C10": "Proved for every value of all 90 scalar and 20 vector pairs: bit-exact numeric cast, unaligned source and target, bytes beside the target unchanged; unsupported pairs panic (the converter table's keys are all enumerated symbolically). std's lazily built converter table is built from the same source lines but stored in a stand-in map restricted to the looked-up keys (cfg(kani))." + TRUST,
"C15": "align_to proved for every value and alignment of u8..u128/usize by Verus on the mechanically extracted bodies (Kani contracts of the same functions with bounded alignments stand by for bodies Verus cannot take); expand_bits_by_3 and reverse_bits proved for all 2^64 inputs by Kani." + TRUST,
}
LATER = "check under construction"
NA = {
 "C19": "The hull algorithm is incremental floating point geometry (cross products, tolerances, hash-map edge bookkeeping); neither CBMC (non-linear f64) nor an SMT prover discharges the enclosing property for any useful bound.",
 "C20": "Eigenvectors of floating point covariance matrices over k-nearest-neighbour searches: non-linear floating point and a third-party kd-tree, outside deductive verification's reach here.",
 "C21": "pasture-io cannot be compiled in this environment (las, laz, bitfield and other dependencies are not available offline), so no verifier can be applied to the real code.",
}
for p in ["C%02d" % i for i in range(1, 23)]:
    if p not in NOTE and p not in NA:
        NA[p] = LATER

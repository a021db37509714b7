//! C01: layouts. One step (`add_attribute`) from any valid layout with up to 3 attributes at arbitrary offsets and of
//! arbitrary sizes, which is the induction step for layouts built attribute by attribute; whole constructions of 3
//! attributes of arbitrary datatypes.
use crate::support::*;
use pasture_core::layout::*;
use std::alloc::Layout;
use std::borrow::Cow;

/// Largest offset or size: everything representable in a point
const MAX: u64 = 1 << 40;

fn def(name: &'static str, t: PointAttributeDataType) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), t)
}
/// 2^k, 1 to 16
fn any_align() -> u64 {
    let k: u8 = kani::any();
    match k {
        0 => 1,
        1 => 2,
        2 => 4,
        3 => 8,
        _ => 16,
    }
}
/// any datatype of at least one byte; its size and alignment according to the specification
fn any_datatype() -> (PointAttributeDataType, u64, u64) {
    use PointAttributeDataType::*;
    let k: u8 = kani::any();
    match k {
        0 => (U8, 1, 1),
        1 => (I8, 1, 1),
        2 => (U16, 2, 2),
        3 => (I16, 2, 2),
        4 => (U32, 4, 4),
        5 => (I32, 4, 4),
        6 => (U64, 8, 8),
        7 => (I64, 8, 8),
        8 => (F32, 4, 4),
        9 => (F64, 8, 8),
        10 => (Vec3u8, 3, 1),
        11 => (Vec3u16, 6, 2),
        12 => (Vec3i32, 12, 4),
        13 => (Vec3f32, 12, 4),
        14 => (Vec3f64, 24, 8),
        15 => (Vec4u8, 4, 1),
        16 => {
            let n: u64 = kani::any();
            kani::assume(n > 0 && n < MAX);
            (ByteArray(n), n, 1)
        }
        _ => {
            let size: u64 = kani::any();
            kani::assume(size > 0 && size < MAX);
            let min_alignment = any_align();
            (Custom { size, min_alignment, name: uuid::Uuid::nil() }, size, min_alignment)
        }
    }
}
/// `ByteArray` of any size
fn any_array() -> PointAttributeDataType {
    let n: u64 = kani::any();
    kani::assume(n > 0 && n < MAX);
    PointAttributeDataType::ByteArray(n)
}
/// `v` rounded up to a multiple of the power of two `a`
fn up(v: u64, a: u64) -> u64 {
    (v + (a - 1)) & !(a - 1)
}
/// the attributes at `i` and `j` share a byte
fn disjoint(l: &PointLayout, i: usize, j: usize) -> bool {
    let (x, y) = (l.at(i), l.at(j));
    x.offset() + x.size() <= y.offset() || y.offset() + y.size() <= x.offset()
}
const NAMES: [&str; 6] = ["A", "Bb", "Xxx", "Yyyy", "Zzzzz", "Wwwwww"];

/// Any valid layout of `k` attributes: in any order, with any gaps, of any sizes, total size and alignment
fn any_layout(k: usize) -> PointLayout {
    let mut m = Vec::with_capacity(k);
    let mut end = 0;
    let mut i = 0;
    while i < k {
        let o: u64 = kani::any();
        kani::assume(o < MAX);
        let a = def(NAMES[i], any_array()).at_offset_in_type(o);
        if o + a.size() > end {
            end = o + a.size();
        }
        m.push(a);
        i += 1;
    }
    let align = any_align();
    let size: u64 = kani::any();
    kani::assume(size >= end && size < 8 * MAX && size & (align - 1) == 0);
    let l = PointLayout::kani_from_parts(m, Layout::from_size_align(size as usize, align as usize).unwrap());
    let mut i = 0;
    while i < k {
        let mut j = 0;
        while j < i {
            kani::assume(disjoint(&l, i, j));
            j += 1;
        }
        i += 1;
    }
    l
}

/// effective alignment of a field under a rule, the rule
fn any_rule(align: u64, packed: bool) -> (u64, FieldAlignment, u64) {
    if packed {
        let p = any_align();
        (if p < align { p } else { align }, FieldAlignment::Packed(p), p)
    } else {
        (align, FieldAlignment::Default, u64::MAX)
    }
}

macro_rules! add_to_any {
    ($name:ident, $k:literal, $packed:literal) => {
        proof!($name, 18, {
            let mut l = any_layout($k);
            let (t, size, align) = any_datatype();
            let (old_size, old_align) = (l.size_of_point_entry(), l.kani_memory_layout().align() as u64);
            let (field_align, rule, _) = any_rule(align, $packed);
            let mut old = [(0, 0); $k];
            let mut end = 0;
            let mut i = 0;
            while i < $k {
                old[i] = (l.at(i).offset(), l.at(i).size());
                if old[i].0 + old[i].1 > end {
                    end = old[i].0 + old[i].1;
                }
                i += 1;
            }
            l.add_attribute(def(NAMES[5], t), rule);
            kani::cover!(field_align == 8 && (end & 7 == 3 || $k == 0));
            assert!(l.attributes().count() == $k + 1, "C01 exactly one attribute is added");
            let mut i = 0;
            while i < $k {
                assert!(
                    l.at(i).offset() == old[i].0 && l.at(i).size() == old[i].1 && l.at(i).name() == NAMES[i],
                    "C01 adding an attribute leaves the others where they are"
                );
                assert!(disjoint(&l, i, $k), "C01 the new attribute does not overlap the others");
                i += 1;
            }
            let new = l.at($k);
            assert!(new.size() == size && new.datatype() == t && new.name() == NAMES[5], "C01 the new attribute is the given one");
            assert!(new.offset() == up(end, field_align), "C01 the new attribute lies at the next offset its alignment allows");
            let total = l.size_of_point_entry();
            let total_align = l.kani_memory_layout().align() as u64;
            assert!(new.offset() + new.size() <= total && total >= old_size, "C01 every attribute lies inside of the point");
            assert!(total & (total_align - 1) == 0, "C01 the size of a point is a multiple of its alignment");
            if !$packed {
                assert!(
                    total_align == if old_align > align { old_align } else { align },
                    "C01 the layout is aligned for all its attributes"
                );
            }
        });
    };
}
//@ fns: PointLayout::add_attribute
add_to_any!(add_to_0, 0, false);
//@ fns: PointLayout::add_attribute
add_to_any!(add_to_1, 1, false);
//@ fns: PointLayout::add_attribute
//@ kind: bounded(layouts of 5 attributes, any offsets and sizes)
add_to_any!(add_to_5, 5, false);
//@ fns: PointLayout::add_attribute
add_to_any!(add_packed_to_0, 0, true);
//@ fns: PointLayout::add_attribute
add_to_any!(add_packed_to_1, 1, true);
//@ fns: PointLayout::add_attribute
//@ kind: bounded(layouts of 5 attributes, any offsets and sizes)
add_to_any!(add_packed_to_5, 5, true);

//@ fns: PointLayout::add_attribute
//@ expect: panic
proof!(mp_add_duplicate, {
    let mut l = any_layout(3);
    let (t, _, align) = any_datatype();
    let (_, rule, _) = any_rule(align, kani::any());
    let i = lt(3);
    kani::cover!(i == 1);
    l.add_attribute(def(NAMES[i], t), rule);
    must_panic()
});

/// the layout equals the C struct with the given fields (size, effective alignment)
fn is_c_struct(l: &PointLayout, fields: &[(u64, u64)]) {
    let mut end = 0;
    let mut align = 1;
    let mut i = 0;
    assert!(l.attributes().count() == fields.len(), "C01 the layout has exactly the given attributes");
    while i < fields.len() {
        let (s, a) = fields[i];
        let o = up(end, a);
        assert!(l.at(i).offset() == o, "C01 offsets are those of the C struct");
        assert!(l.at(i).size() == s && l.at(i).name() == NAMES[i], "C01 attributes are the given ones");
        end = o + s;
        if a > align {
            align = a;
        }
        i += 1;
    }
    assert!(l.size_of_point_entry() == up(end, align), "C01 the size is that of the C struct");
    assert!(l.kani_memory_layout().align() as u64 == align, "C01 the alignment is that of the C struct");
}
//@ fns: PointLayout::from_attributes, PointLayout::from_iter, PointLayout::add_attribute
//@ kind: bounded(3 attributes, any datatypes)
proof!(natural_3, {
    let (t0, t1, t2) = (any_datatype(), any_datatype(), any_datatype());
    let l = PointLayout::from_attributes(&[def(NAMES[0], t0.0), def(NAMES[1], t1.0), def(NAMES[2], t2.0)]);
    kani::cover!(t0.1 == 1 && t1.2 == 8 && t2.1 == 2);
    is_c_struct(&l, &[(t0.1, t0.2), (t1.1, t1.2), (t2.1, t2.2)]);
});
//@ fns: PointLayout::from_attributes_packed, PointLayout::add_attribute
//@ kind: bounded(3 attributes, any datatypes)
proof!(packed_3, {
    let (t0, t1, t2) = (any_datatype(), any_datatype(), any_datatype());
    let p = any_align();
    let min = |a: u64| if a < p { a } else { p };
    let l = PointLayout::from_attributes_packed(&[def(NAMES[0], t0.0), def(NAMES[1], t1.0), def(NAMES[2], t2.0)], p);
    kani::cover!(p == 4 && t0.1 == 1 && t1.2 == 8 && t2.1 == 2);
    is_c_struct(&l, &[(t0.1, min(t0.2)), (t1.1, min(t1.2)), (t2.1, min(t2.2))]);
});
//@ fns: PointLayout::default, PointLayout::from_attributes
proof!(empty, {
    let l = PointLayout::from_attributes(&[]);
    kani::cover!(true);
    assert!(l.attributes().count() == 0 && l.size_of_point_entry() == 0 && l == PointLayout::default(), "C01 the empty layout is empty");
});
//@ fns: PointAttributeDataType::size, PointAttributeDataType::min_alignment
proof!(datatypes, 18, {
    let (t, size, align) = any_datatype();
    kani::cover!(size == 24);
    assert!(t.size() == size, "C01 size of a datatype");
    assert!(t.min_alignment() == align, "C01 alignment of a datatype");
    let o: u64 = kani::any();
    kani::assume(o < MAX);
    let m = def("A", t).at_offset_in_type(o);
    assert!(m.offset() == o && m.size() == size && m.datatype() == t, "C01 a member keeps its offset");
    assert!(m.byte_range_within_point() == (o as usize..(o + size) as usize), "C01 bytes of a member");
});

/// explicitly placed members
fn member(i: usize, any_size: bool) -> PointAttributeMember {
    let o: u64 = kani::any();
    kani::assume(o < MAX);
    let t = if any_size { any_array() } else { any_datatype().0 };
    def(NAMES[i], t).at_offset_in_type(o)
}
fn apart(x: &PointAttributeMember, y: &PointAttributeMember) -> bool {
    x.offset() + x.size() <= y.offset() || y.offset() + y.size() <= x.offset()
}
//@ fns: PointLayout::from_members_and_alignment
//@ kind: bounded(3 attributes, any offsets and sizes)
proof!(explicit_3, {
    let m = [member(0, true), member(1, true), member(2, true)];
    kani::assume(apart(&m[0], &m[1]) && apart(&m[0], &m[2]) && apart(&m[1], &m[2]));
    let align = any_align();
    let l = PointLayout::from_members_and_alignment(&m, align);
    kani::cover!(m[0].offset() > m[2].offset() && m[2].offset() > m[1].offset());
    assert!(l.attributes().count() == 3, "C01 all attributes are in the layout");
    let mut end = 0;
    let mut i = 0;
    while i < 3 {
        assert!(
            l.at(i).offset() == m[i].offset() && l.at(i).size() == m[i].size() && l.at(i).name() == NAMES[i],
            "C01 attributes lie where they were placed"
        );
        let e = m[i].offset() + m[i].size();
        if e > end {
            end = e;
        }
        i += 1;
    }
    assert!(l.size_of_point_entry() == up(end, align), "C01 the size covers every attribute and is aligned");
    assert!(l.kani_memory_layout().align() as u64 == align, "C01 the alignment is the given one");
});
//@ fns: PointLayout::from_members_and_alignment
//@ kind: bounded(3 attributes, any offsets and sizes)
//@ expect: panic
proof!(mp_overlap_3, {
    let m = [member(0, true), member(1, true), member(2, true)];
    kani::assume(!(apart(&m[0], &m[1]) && apart(&m[0], &m[2]) && apart(&m[1], &m[2])));
    kani::cover!(apart(&m[0], &m[1]) && apart(&m[1], &m[2]));
    kani::cover!(apart(&m[0], &m[1]) && apart(&m[0], &m[2]));
    let _ = PointLayout::from_members_and_alignment(&m, any_align());
    must_panic()
});
//@ fns: PointLayout::from_members_and_alignment
//@ kind: bounded(3 attributes, any offsets and sizes)
//@ expect: panic
proof!(mp_duplicate_3, {
    let mut m = [member(0, true), member(1, true), member(2, false)];
    kani::assume(apart(&m[0], &m[1]) && apart(&m[0], &m[2]) && apart(&m[1], &m[2]));
    let (i, j) = (lt(3), lt(3));
    kani::assume(i < j);
    kani::cover!(i == 0 && j == 2);
    m[j] = def(NAMES[i], m[j].datatype()).at_offset_in_type(m[j].offset());
    let _ = PointLayout::from_members_and_alignment(&m, any_align());
    must_panic()
});
//@ fns: PointLayout::from_attributes, PointLayout::from_iter, PointLayout::add_attribute
//@ kind: bounded(5 attributes, any datatypes)
//@ tier: thorough
proof!(natural_5, 8, {
    let (t0, t1, t2, t3, t4) = (any_datatype(), any_datatype(), any_datatype(), any_datatype(), any_datatype());
    let l = PointLayout::from_attributes(&[
        def(NAMES[0], t0.0),
        def(NAMES[1], t1.0),
        def(NAMES[2], t2.0),
        def(NAMES[3], t3.0),
        def(NAMES[4], t4.0),
    ]);
    kani::cover!(t0.1 == 1 && t1.2 == 8 && t2.1 == 2 && t3.2 == 16);
    is_c_struct(&l, &[(t0.1, t0.2), (t1.1, t1.2), (t2.1, t2.2), (t3.1, t3.2), (t4.1, t4.2)]);
});

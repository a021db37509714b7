//! C02: lookups in a layout of 3 attributes with arbitrary datatypes, offsets and (concrete, distinct) names of
//! different lengths and of equal length; queries for any of the names or an unknown name, with any datatype.
use crate::support::*;
use pasture_core::layout::*;
use std::alloc::Layout;
use std::borrow::Cow;

const MAX: u64 = 1 << 40;

fn def(name: &'static str, t: PointAttributeDataType) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), t)
}
/// a datatype with all its parameters, encoded so that codes are equal exactly if the datatypes are
fn any_datatype() -> (PointAttributeDataType, (u8, u64, u64, u128)) {
    use PointAttributeDataType::*;
    let k: u8 = kani::any();
    match k {
        0 => (U8, (0, 0, 0, 0)),
        1 => (I8, (1, 0, 0, 0)),
        2 => (U16, (2, 0, 0, 0)),
        3 => (I16, (3, 0, 0, 0)),
        4 => (U32, (4, 0, 0, 0)),
        5 => (I32, (5, 0, 0, 0)),
        6 => (U64, (6, 0, 0, 0)),
        7 => (I64, (7, 0, 0, 0)),
        8 => (F32, (8, 0, 0, 0)),
        9 => (F64, (9, 0, 0, 0)),
        10 => (Vec3u8, (10, 0, 0, 0)),
        11 => (Vec3u16, (11, 0, 0, 0)),
        12 => (Vec3i32, (12, 0, 0, 0)),
        13 => (Vec3f32, (13, 0, 0, 0)),
        14 => (Vec3f64, (14, 0, 0, 0)),
        15 => (Vec4u8, (15, 0, 0, 0)),
        16 => {
            let n: u64 = kani::any();
            kani::assume(n < MAX);
            (ByteArray(n), (16, n, 0, 0))
        }
        _ => {
            let size: u64 = kani::any();
            kani::assume(size < MAX);
            let min_alignment: u64 = if kani::any() { 1 } else { 8 };
            let name: u128 = kani::any();
            (Custom { size, min_alignment, name: uuid::Uuid::from_u128(name) }, (17, size, min_alignment, name))
        }
    }
}
fn any_member(name: &'static str) -> (PointAttributeMember, (u8, u64, u64, u128)) {
    let (t, code) = any_datatype();
    let o: u64 = kani::any();
    kani::assume(o < MAX);
    (def(name, t).at_offset_in_type(o), code)
}

/// names of the attributes of the layout; a query may ask for all of these and for the unknown names
const NAMES: [&str; 3] = ["Intensity", "Bb", "Color"];
const UNKNOWN: [&str; 3] = ["Colour", "intensity", ""];

fn same(x: Option<&PointAttributeMember>, y: Option<&PointAttributeMember>) -> bool {
    match (x, y) {
        (Some(x), Some(y)) => std::ptr::eq(x, y),
        (None, None) => true,
        _ => false,
    }
}

macro_rules! lookups {
    ($name:ident, $which:expr) => {
        proof!($name, 18, {
            let (m0, c0) = any_member(NAMES[0]);
            let (m1, c1) = any_member(NAMES[1]);
            let (m2, c2) = any_member(NAMES[2]);
            let codes = [c0, c1, c2];
            let l = PointLayout::kani_from_parts(vec![m0, m1, m2], Layout::from_size_align(8, 8).unwrap());
            let which: usize = $which;
            let name = if which < 3 { NAMES[which] } else { UNKNOWN[which - 3] };
            let (t, code) = any_datatype();
            let q = def(name, t);
            let by_name = l.get_attribute_by_name(name);
            let by_def = l.get_attribute(&q);
            kani::cover!(which >= 3 || by_def.is_some());
            kani::cover!(which >= 3 || by_def.is_none());
            // what the layout contains
            let expect_name = if which < 3 { Some(l.at(which)) } else { None };
            let expect_def = if which < 3 && code == codes[which] { Some(l.at(which)) } else { None };
            assert!(same(by_name, expect_name), "C02 lookup by name finds exactly the attribute of that name");
            assert!(same(by_def, expect_def), "C02 lookup by definition finds exactly the attribute of that name and datatype");
            assert!(l.has_attribute_with_name(name) == by_name.is_some(), "C02 has_attribute_with_name agrees with the lookup");
            assert!(l.has_attribute(&q) == by_def.is_some(), "C02 has_attribute agrees with the lookup");
            let expect_index = if by_def.is_some() { Some(which) } else { None };
            assert!(l.index_of(&q) == expect_index, "C02 index_of agrees with the lookup");
            assert!(l.offset_of(&q) == by_def.map(|m| m.offset()), "C02 offset_of agrees with the lookup");
        });
    };
}
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
//@ kind: bounded(layouts of 3 attributes, any datatypes)
lookups!(lookup_first, 0);
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
//@ kind: bounded(layouts of 3 attributes, any datatypes)
lookups!(lookup_second, 1);
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
//@ kind: bounded(layouts of 3 attributes, any datatypes)
lookups!(lookup_third, 2);
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
//@ kind: bounded(layouts of 3 attributes, any datatypes)
lookups!(lookup_longer, 3);
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
//@ kind: bounded(layouts of 3 attributes, any datatypes)
lookups!(lookup_same_length, 4);
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
//@ kind: bounded(layouts of 3 attributes, any datatypes)
lookups!(lookup_empty_name, 5);

//@ fns: PointLayout::attributes, PointLayout::at
//@ kind: bounded(layouts of 3 attributes, any datatypes)
proof!(iteration, 18, {
    let (m0, c0) = any_member(NAMES[0]);
    let (m1, c1) = any_member(NAMES[1]);
    let (m2, c2) = any_member(NAMES[2]);
    let l = PointLayout::kani_from_parts(vec![m0, m1, m2], Layout::from_size_align(8, 8).unwrap());
    let mut count = 0;
    for (i, m) in l.attributes().enumerate() {
        assert!(std::ptr::eq(m, l.at(i)), "C02 iteration and index give the same attribute");
        assert!(m.name() == NAMES[i], "C02 attributes come in the order of their declaration");
        count += 1;
    }
    kani::cover!(true);
    assert!(count == 3, "C02 iteration gives every attribute");
});
//@ fns: PointLayout::at
//@ kind: bounded(layouts of 3 attributes, any datatypes)
//@ expect: panic
proof!(mp_at, {
    let l = PointLayout::kani_from_parts(
        vec![any_member(NAMES[0]).0, any_member(NAMES[1]).0],
        Layout::from_size_align(8, 8).unwrap(),
    );
    let i: usize = kani::any();
    kani::assume(i >= 2);
    kani::cover!(i == 2);
    let _ = l.at(i);
    must_panic()
});
//@ fns: PointLayout::get_attribute, PointLayout::get_attribute_by_name, PointLayout::has_attribute, PointLayout::has_attribute_with_name, PointLayout::index_of, PointLayout::offset_of
proof!(lookup_empty_layout, {
    let l = PointLayout::default();
    let (t, _) = any_datatype();
    let q = def(NAMES[0], t);
    kani::cover!(true);
    assert!(
        l.get_attribute(&q).is_none()
            && l.get_attribute_by_name(NAMES[0]).is_none()
            && !l.has_attribute(&q)
            && !l.has_attribute_with_name(NAMES[0])
            && l.index_of(&q).is_none()
            && l.offset_of(&q).is_none()
            && l.attributes().count() == 0,
        "C02 an empty layout contains nothing"
    );
});

// ---- adding and looking up, duplicates

//@ fns: PointLayout::add_attribute, PointLayout::get_attribute, PointLayout::get_attribute_by_name
//@ kind: bounded(layouts of 2 attributes, any datatypes)
proof!(added_is_found, 18, {
    let ((t0, c0), (t1, c1), (q, cq)) = (any_datatype(), any_datatype(), any_datatype());
    let mut l = PointLayout::default();
    l.add_attribute(def(NAMES[0], t0), FieldAlignment::Default);
    assert!(!l.has_attribute_with_name(NAMES[1]) && !l.has_attribute(&def(NAMES[1], t1)), "C02 what was not added is not found");
    l.add_attribute(def(NAMES[1], t1), FieldAlignment::Packed(1));
    kani::cover!(c0 == c1);
    assert!(l.index_of(&def(NAMES[0], t0)) == Some(0) && l.index_of(&def(NAMES[1], t1)) == Some(1), "C02 attributes are found in the order they were added");
    assert!(l.has_attribute(&def(NAMES[1], q)) == (cq == c1), "C02 attributes are found only with their datatype");
    assert!(l.has_attribute(&def(NAMES[0], q)) == (cq == c0), "C02 attributes are found only with their datatype");
});
//@ fns: PointLayout::add_attribute
//@ kind: bounded(layouts of 3 attributes, any datatypes)
//@ expect: panic
proof!(mp_duplicate, 18, {
    let (m0, c0) = any_member(NAMES[0]);
    let (m1, c1) = any_member(NAMES[1]);
    let (m2, c2) = any_member(NAMES[2]);
    let mut l = PointLayout::kani_from_parts(vec![m0, m1, m2], Layout::from_size_align(8, 8).unwrap());
    let i = lt(3);
    let (t, c) = any_datatype();
    kani::cover!(i == 1 && c != c1);
    kani::cover!(i == 2 && c == c2);
    l.add_attribute(def(NAMES[i], t), FieldAlignment::Default);
    must_panic()
});
//@ fns: PointLayout::from_attributes
//@ kind: bounded(layouts of 3 attributes, any datatypes)
//@ expect: panic
proof!(mp_duplicate_in_list, 18, {
    let (t0, t1, t2) = (any_datatype().0, any_datatype().0, any_datatype().0);
    kani::cover!(t0 == t2);
    let _ = PointLayout::from_attributes(&[def(NAMES[0], t0), def(NAMES[1], t1), def(NAMES[0], t2)]);
    must_panic()
});

// ---- comparison

/// the members of the layout with everything that distinguishes them
type Key = (usize, u64, (u8, u64, u64, u128));
fn any_pair(first: usize, second: usize) -> (PointLayout, [Key; 2], u64, u64) {
    let (m0, c0) = any_member(NAMES[first]);
    let (m1, c1) = any_member(NAMES[second]);
    let key = [(first, m0.offset(), c0), (second, m1.offset(), c1)];
    let size: u64 = kani::any();
    let align: u64 = 8;
    kani::assume(size < MAX && size & 7 == 0);
    (
        PointLayout::kani_from_parts(vec![m0, m1], Layout::from_size_align(size as usize, align as usize).unwrap()),
        key,
        size,
        align,
    )
}
macro_rules! equality {
    ($name:ident, $i:literal, $j:literal) => {
        proof!($name, 18, {
            let (l, lk, ls, la) = any_pair(0, 1);
            let (m, mk, ms, ma) = any_pair($i, $j);
            let equal = lk == mk && ls == ms;
            kani::cover!(equal || $i != 0 || $j != 1);
            kani::cover!(!equal && lk == mk || $i != 0 || $j != 1);
            assert!((l == m) == equal, "C02 layouts are equal exactly if attributes, offsets and sizes are");
            assert!((m == l) == equal, "C02 equality is symmetric");
            assert!(l == l.clone(), "C02 a copy is equal");
            // the same names with the same datatypes, in any order
            let same_names = ($i == 0 && $j == 1) || ($i == 1 && $j == 0);
            let same_types = if $i == 0 { lk[0].2 == mk[0].2 && lk[1].2 == mk[1].2 } else { lk[0].2 == mk[1].2 && lk[1].2 == mk[0].2 };
            assert!(
                l.compare_without_offsets(&m) == (same_names && same_types),
                "C02 compare_without_offsets compares names and datatypes"
            );
        });
    };
}
//@ fns: PointLayout::eq, PointLayout::compare_without_offsets
//@ kind: bounded(layouts of 2 attributes, any datatypes and offsets)
equality!(equal_same_names, 0, 1);
//@ fns: PointLayout::eq, PointLayout::compare_without_offsets
//@ kind: bounded(layouts of 2 attributes, any datatypes and offsets)
equality!(equal_swapped_names, 1, 0);
//@ fns: PointLayout::eq, PointLayout::compare_without_offsets
//@ kind: bounded(layouts of 2 attributes, any datatypes and offsets)
equality!(equal_other_names, 0, 2);
//@ fns: PointLayout::eq, PointLayout::compare_without_offsets
//@ kind: bounded(layouts of 2 and 3 attributes, any datatypes and offsets)
proof!(equal_prefix, 18, {
    let (m0, m1, m2) = (any_member(NAMES[0]).0, any_member(NAMES[1]).0, any_member(NAMES[2]).0);
    let mem = Layout::from_size_align(8, 8).unwrap();
    let l = PointLayout::kani_from_parts(vec![m0.clone(), m1.clone()], mem);
    let m = PointLayout::kani_from_parts(vec![m0, m1, m2], mem);
    kani::cover!(true);
    assert!(l != m && m != l, "C02 layouts with additional attributes are different");
    assert!(!l.compare_without_offsets(&m) && !m.compare_without_offsets(&l), "C02 layouts with additional attributes are different");
});

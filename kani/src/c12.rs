//! C12: conversion of single raw points; untyped points. All contents, all values; a few layouts each.
use crate::support::*;
use pasture_core::containers::*;
use pasture_core::kani_support::kani_watch_conversions as watch;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use std::alloc::Layout;
use std::borrow::Cow;
use PointAttributeDataType as D;

fn def(name: &'static str, t: PointAttributeDataType) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), t)
}
fn layout(members: Vec<PointAttributeMember>, size: usize) -> PointLayout {
    PointLayout::kani_from_parts(members, Layout::from_size_align(size, 1).unwrap())
}
fn at(m: &[u8], o: usize) -> [u8; 2] {
    [m[o], m[o + 1]]
}

//@ fns: RawPointConverter::from_to, RawPointConverter::convert, convert_unit, get_converter_for_attributes
//@ kind: bounded(one pair of layouts: converted, copied and unmatched attributes, any content)
proof_cadical!(point_mixed, 12, {
    watch(&[(D::U16, D::F32)]);
    // "Xxx" only in the source
    let from = layout(
        vec![def("A", D::U16).at_offset_in_type(3), def("Bb", D::I16).at_offset_in_type(0), def("Xxx", D::U8).at_offset_in_type(2)],
        6,
    );
    // "Yyyy" only in the target, padding at 3
    let to = layout(
        vec![def("Bb", D::I16).at_offset_in_type(7), def("Yyyy", D::U16).at_offset_in_type(1), def("A", D::F32).at_offset_in_type(3)],
        10,
    );
    let source: [u8; 6] = kani::any();
    let mut target: [u8; 10] = kani::any();
    let (old, old_source) = (target, source);
    let converter = RawPointConverter::from_to(&from, &to);
    unsafe { converter.convert(&source, &mut target) };
    kani::cover!(source[3] == 1 && source[4] == 2 && old[9] == 7);
    let v = u16::from_ne_bytes(at(&source, 3)) as f32;
    let o = lt(10);
    if o >= 3 && o < 7 {
        assert!(target[o] == v.to_ne_bytes()[o - 3], "C12 attributes of different types are converted");
    } else if o == 7 || o == 8 {
        assert!(target[o] == source[o - 7], "C12 attributes of the same type are copied");
    } else {
        assert!(target[o] == old[o], "C12 all other bytes of the target are unchanged");
    }
    let o = lt(6);
    assert!(source[o] == old_source[o], "C12 the source is unchanged");
});

/// members of the given sizes at arbitrary, disjoint offsets below 16
fn place(s0: usize, s1: usize) -> (usize, usize) {
    let (a, b) = (lt(16), lt(16));
    kani::assume(a + s0 <= 16 && b + s1 <= 16 && (a + s0 <= b || b + s1 <= a));
    (a, b)
}
//@ fns: RawPointConverter::from_to, RawPointConverter::convert, convert_unit
//@ kind: bounded(two attributes of the same types in both layouts, any offsets, any content)
proof!(point_same_types, 12, {
    let (fa, fb) = place(2, 3);
    let (ta, tb) = place(2, 3);
    let from = layout(vec![def("A", D::I16).at_offset_in_type(fa as u64), def("Bb", D::Vec3u8).at_offset_in_type(fb as u64)], 16);
    let to = layout(vec![def("Bb", D::Vec3u8).at_offset_in_type(tb as u64), def("A", D::I16).at_offset_in_type(ta as u64)], 16);
    let source: [u8; 16] = kani::any();
    let mut target: [u8; 16] = kani::any();
    let old = target;
    let converter = RawPointConverter::from_to(&from, &to);
    unsafe { converter.convert(&source, &mut target) };
    kani::cover!(fa > fb && tb > ta && source[fa] != old[ta]);
    let o = lt(16);
    let expected = if o >= ta && o < ta + 2 {
        source[fa + (o - ta)]
    } else if o >= tb && o < tb + 3 {
        source[fb + (o - tb)]
    } else {
        old[o]
    };
    assert!(target[o] == expected, "C12 attributes of the same type are copied, all other bytes are unchanged");
});
//@ fns: RawPointConverter::from_to, RawPointConverter::convert
//@ kind: bounded(two attributes of different types in both layouts, any offsets, any content)
proof_cadical!(point_other_types, 12, {
    watch(&[(D::I16, D::I32), (D::U32, D::U8)]);
    let (fa, fb) = place(2, 4);
    let (ta, tb) = place(4, 1);
    let from = layout(vec![def("A", D::I16).at_offset_in_type(fa as u64), def("Bb", D::U32).at_offset_in_type(fb as u64)], 16);
    let to = layout(vec![def("Bb", D::U8).at_offset_in_type(tb as u64), def("A", D::I32).at_offset_in_type(ta as u64)], 16);
    let source: [u8; 16] = kani::any();
    let mut target: [u8; 16] = kani::any();
    let old = target;
    let converter = RawPointConverter::from_to(&from, &to);
    unsafe { converter.convert(&source, &mut target) };
    kani::cover!(fa > fb && tb > ta);
    let a = (i16::from_ne_bytes(at(&source, fa)) as i32).to_ne_bytes();
    let b = u32::from_ne_bytes([source[fb], source[fb + 1], source[fb + 2], source[fb + 3]]) as u8;
    let o = lt(16);
    let expected = if o >= ta && o < ta + 4 {
        a[o - ta]
    } else if o == tb {
        b
    } else {
        old[o]
    };
    assert!(target[o] == expected, "C12 attributes of other types are converted, all other bytes are unchanged");
});
//@ fns: RawPointConverter::from_to, RawPointConverter::convert
//@ kind: bounded(layouts without common attributes)
proof!(point_nothing_in_common, 12, {
    let from = layout(vec![A.at_offset_in_type(0)], 2);
    let to = layout(vec![B.at_offset_in_type(0)], 2);
    let source: [u8; 2] = kani::any();
    let mut target: [u8; 2] = kani::any();
    let old = target;
    unsafe { RawPointConverter::from_to(&from, &to).convert(&source, &mut target) };
    kani::cover!(source[0] != old[0]);
    assert!(target == old, "C12 attributes without counterpart do not change anything");
});
//@ fns: RawPointConverter::convert
//@ kind: bounded(one pair of layouts)
//@ expect: panic
proof!(mp_point_too_short, 12, {
    let from = layout(vec![def("A", D::U16).at_offset_in_type(4)], 6);
    let to = layout(vec![def("A", D::U16).at_offset_in_type(2)], 4);
    let source: [u8; 6] = kani::any();
    let mut target: [u8; 6] = kani::any();
    let (n, m) = (lt(7), lt(7));
    kani::assume(n < 6 || m < 4);
    kani::cover!(n == 6 && m == 3);
    kani::cover!(n == 5 && m == 6);
    let c = RawPointConverter::from_to(&from, &to);
    unsafe { c.convert(&source[..n], &mut target[..m]) };
    must_panic()
});

// ---- untyped points: layout with A: u16 @ 2, Bb: u8 @ 0, Xxx: f32 @ 5, padding at 1 and 4, size 9

const F: PointAttributeDefinition = PointAttributeDefinition::custom(Cow::Borrowed("Xxx"), D::F32);
fn untyped_layout() -> PointLayout {
    layout(vec![A.at_offset_in_type(2), B.at_offset_in_type(0), F.at_offset_in_type(5)], 9)
}
/// an untyped point of any content: fills the buffer kind through its own raw setters
macro_rules! untyped {
    ($point:ident, $old:ident, $body:block) => {{
        let l = untyped_layout();
        let $old: [u8; 9] = kani::any();
        {
            let mut memory = $old;
            let mut $point = UntypedPointSlice::new(&l, &mut memory);
            $body
        }
    }};
}
fn same_except<P: UntypedPoint>(p: &P, old: &[u8; 9], start: usize, end: usize) {
    let o = lt(9);
    assert!(p.get_buffer().len() == 9, "C12 the size of the point stays the same");
    assert!((o >= start && o < end) || p.get_buffer()[o] == old[o], "C12 the other attributes are unchanged");
}
macro_rules! set_get {
    ($name:ident, $new:expr) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::solver(minisat)]
        fn $name() {
            let l = untyped_layout();
            let old: [u8; 9] = kani::any();
            let mut memory = old;
            let mut p = $new(&l, &mut memory, &old);
            let v: u16 = kani::any();
            let r = p.set_attribute(&A, &v);
            assert!(r.is_ok(), "C12 setting a known attribute succeeds");
            let got = p.get_attribute::<u16>(&A);
            kani::cover!(v == 0x1234);
            assert!(got.is_ok(), "C12 getting a known attribute succeeds");
            assert!(got.unwrap() == v, "C12 the value last set is returned");
            let raw = p.get_raw_attribute(&A);
            assert!(raw.is_ok(), "C12 getting a known attribute succeeds");
            let raw = raw.unwrap();
            assert!(raw.len() == 2 && raw[0] == v.to_ne_bytes()[0] && raw[1] == v.to_ne_bytes()[1], "C12 the raw value is the value last set");
            same_except(&p, &old, 2, 4);
        }
    };
}
fn slice_point<'a>(l: &'a PointLayout, memory: &'a mut [u8; 9], _: &[u8; 9]) -> UntypedPointSlice<'a> {
    UntypedPointSlice::new(l, memory)
}
fn buffer_point<'a>(l: &'a PointLayout, _: &'a mut [u8; 9], old: &[u8; 9]) -> UntypedPointBuffer<'a> {
    let mut p = UntypedPointBuffer::new(l);
    assert!(p.get_buffer().len() == 9, "C12 an untyped point has the size of its layout");
    let mut c = p.get_cursor();
    let m: &mut [u8] = c.get_mut();
    m[0] = old[0];
    m[1] = old[1];
    m[2] = old[2];
    m[3] = old[3];
    m[4] = old[4];
    m[5] = old[5];
    m[6] = old[6];
    m[7] = old[7];
    m[8] = old[8];
    drop(c);
    p
}
//@ fns: UntypedPointSlice::set_attribute, UntypedPointSlice::get_attribute, UntypedPointSlice::get_raw_attribute
set_get!(slice_set_get, slice_point);
//@ fns: UntypedPointBuffer::set_attribute, UntypedPointBuffer::get_attribute, UntypedPointBuffer::get_raw_attribute, UntypedPointBuffer::new
set_get!(buffer_set_get, buffer_point);
fn l1(n: usize) { let mut i = 0; while i < n { i += 1; } }
fn l2(n: usize) { let mut i = 0; while i < n { i += 1; } }
fn l3(n: usize) { let mut i = 0; while i < n { i += 1; } }
fn l4(n: usize) { let mut i = 0; while i < n { i += 1; } }
fn l5(n: usize) { let mut i = 0; while i < n { i += 1; } }

#[derive(Clone)]
struct S3 { a: usize, c: &'static str, b: usize }
#[derive(Clone)]
enum E3 { X(usize), Y(u8) }

struct Wr { l: PointLayout, n: usize }

static mut SLOT: Option<[PointAttributeMember; 2]> = None;
fn sl() -> PointLayout {
    unsafe {
        SLOT = Some([A.at_offset_in_type(3), B.at_offset_in_type(1)]);
        let m = SLOT.as_mut().unwrap();
        layout(Vec::from_raw_parts(m.as_mut_ptr(), 2, 0), 4)
    }
}
proof!(zz, 12, {
    let l = sl();
    l1(l.at(0).name().len());
    l2(l.at(1).name().len());
    l3(l.get_attribute(&B).map(|a| a.offset() as usize).unwrap_or(9));
    let w = Wr { l, n: 3};
    l4(w.l.get_attribute(&A).map(|a| a.offset() as usize).unwrap_or(9));
    let k = sl();
    l5(k.get_attribute(&A).map(|a| a.offset() as usize).unwrap_or(9));
    kani::cover!(true);
});

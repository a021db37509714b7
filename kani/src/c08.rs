//! C08: contracts of the iterators. An iterator is created over a buffer of any length, moved to any position with
//! one `nth` of any amount, and then stepped by `next` and by another `nth` of any amount; because the state of an
//! iterator is its position, this covers every history. The oracle is the memory of the buffer itself.
use crate::support::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

const S: usize = Q::SIZE;

/// `item(x, j)` asserts that `x` is the data of point `j`
fn walk<I: Iterator>(mut it: I, n: usize, item: impl Fn(I::Item, usize)) {
    let k: usize = kani::any();
    let (lo, hi) = it.size_hint();
    assert!(lo <= n && hi.map_or(true, |h| h >= n), "C08 size_hint");
    let x = it.nth(k);
    assert!(x.is_some() == (k < n), "C08 nth ends exactly past the last point");
    let mut at = n;
    if let Some(x) = x {
        item(x, k);
        at = k + 1;
    }
    let (lo, hi) = it.size_hint();
    assert!(lo <= n - at && hi.map_or(true, |h| h >= n - at), "C08 size_hint");
    let x = it.next();
    assert!(x.is_some() == (at < n), "C08 next ends exactly after the last point");
    if let Some(x) = x {
        item(x, at);
        at += 1;
    }
    let j: usize = kani::any();
    let x = it.nth(j);
    assert!(x.is_some() == (j < n - at), "C08 nth ends exactly past the last point");
    kani::cover!(x.is_some() && at > 3 && j > 2);
    kani::cover!(x.is_none() && at < n);
    kani::cover!(k == usize::MAX);
    kani::cover!(k < n && j == usize::MAX);
    if let Some(x) = x {
        item(x, at + j);
    } else {
        assert!(it.next().is_none(), "C08 an ended iterator stays ended");
        assert!(it.nth(1).is_none(), "C08 an ended iterator stays ended");
    }
}
/// The first steps of a fresh iterator, without `nth`
fn fresh<I: Iterator>(mut it: I, n: usize, item: impl Fn(I::Item, usize)) {
    let (lo, hi) = it.size_hint();
    assert!(lo <= n && hi.map_or(true, |h| h >= n), "C08 size_hint");
    let x = it.next();
    assert!(x.is_some() == (n > 0), "C08 an empty buffer has no items");
    if let Some(x) = x {
        item(x, 0);
    }
    let x = it.next();
    assert!(x.is_some() == (n > 1), "C08 next");
    if let Some(x) = x {
        item(x, 1);
    }
    kani::cover!(n > 2);
    kani::cover!(n == 0);
}
/// The number of items an iterator reports
fn count<I: Iterator>(it: I, n: usize) {
    kani::assume(n <= 3);
    assert!(it.count() == n, "C08 count");
    kani::cover!(n == 3);
}
fn last<I: Iterator>(it: I, n: usize, item: impl Fn(I::Item, usize)) {
    kani::assume(n <= 3);
    match it.last() {
        Some(x) => item(x, n - 1),
        None => assert!(n == 0, "C08 last"),
    }
    kani::cover!(n == 3);
}

fn point_is(x: &T4, p: *const u8, j: usize) {
    let p = p as *const T4;
    let y = unsafe { *p.add(j) };
    assert!(*x == y, "C08 item is the point's data");
}
fn point_at(x: &T4, p: *const u8, j: usize) {
    assert!(x as *const T4 as *const u8 == unsafe { p.add(j * S) }, "C08 item is the point's memory");
}
fn value_is(x: W, p: *const u8, stride: usize, j: usize) {
    assert!(x.0[0] == rd(p, j * stride) && x.0[1] == rd(p, j * stride + 1), "C08 item is the attribute's value");
}
fn col_point_is(x: &T4, pa: *const u8, pb: *const u8, j: usize) {
    assert!(x.a[0] == rd(pa, 2 * j) && x.a[1] == rd(pa, 2 * j + 1) && x.b == rd(pb, j), "C08 item is the point's data");
}
fn value_at(x: &W, p: *const u8, j: usize) {
    assert!(x as *const W as *const u8 == unsafe { p.add(j * 2) }, "C08 item is the attribute's memory");
}
fn il<I: Interleaved>() -> (I::Buf, *const u8, usize) {
    let n = any_len0();
    let mem = any_bytes(n * S);
    let p = mem.as_ptr();
    (I::make::<Q>(mem, n), p, n)
}
fn col() -> (ManuallyDrop<HashMapBuffer>, *const u8, *const u8, usize) {
    let n = any_len0();
    let (b, pa, pb) = columns::<Q>(n);
    (b, pa, pb, n)
}
/// slice of any range of a buffer of any length; `p` is the memory of the slice
macro_rules! il_slice {
    ($b:ident, $p:ident, $n:ident, $slice:ident, $it:expr) => {{
        let (mut parent, p, n) = il::<V>();
        let r = any_range(n);
        let $p = unsafe { p.add(r.start * S) };
        let $n = r.end - r.start;
        let mut $b = parent.$slice(r);
        $it
    }};
}
macro_rules! col_slice {
    ($b:ident, $pa:ident, $pb:ident, $n:ident, $slice:ident, $it:expr) => {{
        let (mut parent, pa, pb, n) = col();
        let r = any_range(n);
        let $pa = unsafe { pa.add(r.start * 2) };
        let $pb = unsafe { pb.add(r.start) };
        let $n = r.end - r.start;
        let mut $b = parent.$slice(r);
        $it
    }};
}

//@ fns: PointIteratorByValue::next, PointIteratorByValue::nth, PointView::into_iter
proof!(point_value_v, { let (b, p, n) = il::<V>(); walk(b.view::<T4>().into_iter(), n, |x, j| point_is(&x, p, j)) });
//@ fns: PointIteratorByValue::next, PointIteratorByValue::nth
proof!(point_value_e, { let (b, p, n) = il::<E>(); walk(b.view::<T4>().into_iter(), n, |x, j| point_is(&x, p, j)) });
//@ fns: PointIteratorByValue::next, PointIteratorByValue::nth
proof!(point_value_col, { let (b, pa, pb, n) = col(); walk(b.view::<T4>().into_iter(), n, |x, j| col_point_is(&x, pa, pb, j)) });
//@ fns: PointIteratorByValue::next, PointIteratorByValue::nth, BufferSliceInterleaved
proof!(point_value_slice, il_slice!(b, p, n, slice, walk(b.view::<T4>().into_iter(), n, |x, j| point_is(&x, p, j))));
//@ fns: PointIteratorByRef::from, PointIteratorByRef::next, PointIteratorByRef::nth, PointView::iter
proof!(point_ref_v, { let (b, p, n) = il::<V>(); let v = b.view::<T4>(); walk(v.iter(), n, |x, j| point_at(x, p, j)) });
//@ fns: PointIteratorByRef::from, PointIteratorByRef::next, PointIteratorByRef::nth
proof!(point_ref_e, { let (b, p, n) = il::<E>(); let v = b.view::<T4>(); walk(v.iter(), n, |x, j| point_at(x, p, j)) });
//@ fns: PointIteratorByRef::from, PointIteratorByRef::next, PointIteratorByRef::nth
proof!(point_ref_slice, il_slice!(b, p, n, slice, { let v = b.view::<T4>(); walk(v.iter(), n, |x, j| point_at(x, p, j)) }));
//@ fns: PointViewMut::iter
proof!(point_ref_viewmut, { let (mut b, p, n) = il::<V>(); let v = b.view_mut::<T4>(); walk(v.iter(), n, |x, j| point_at(x, p, j)) });
//@ fns: PointIteratorByMut::from, PointIteratorByMut::next, PointIteratorByMut::nth, PointViewMut::iter_mut
proof!(point_mut_v, { let (mut b, p, n) = il::<V>(); let mut v = b.view_mut::<T4>(); walk(v.iter_mut(), n, |x, j| point_at(x, p, j)) });
//@ fns: PointIteratorByMut::from, PointIteratorByMut::next, PointIteratorByMut::nth
proof!(point_mut_e, { let (mut b, p, n) = il::<E>(); let mut v = b.view_mut::<T4>(); walk(v.iter_mut(), n, |x, j| point_at(x, p, j)) });
//@ fns: PointIteratorByMut::from, PointIteratorByMut::next, PointIteratorByMut::nth
proof!(point_mut_slice, il_slice!(b, p, n, slice_mut, { let mut v = b.view_mut::<T4>(); walk(v.iter_mut(), n, |x, j| point_at(x, p, j)) }));
//@ fns: AttributeIteratorByValue::next, AttributeIteratorByValue::nth, AttributeView::into_iter
proof!(attr_value_v, { let (b, p, n) = il::<V>(); let p = p.wrapping_add(2); walk(b.view_attribute::<W>(&A).into_iter(), n, |x, j| value_is(x, p, S, j)) });
//@ fns: AttributeIteratorByValue::next, AttributeIteratorByValue::nth
proof!(attr_value_col, { let (b, pa, pb, n) = col(); walk(b.view_attribute::<W>(&A).into_iter(), n, |x, j| value_is(x, pa, 2, j)) });
//@ fns: AttributeIteratorByValue::next, AttributeIteratorByValue::nth
proof!(attr_value_slice, col_slice!(b, pa, pb, n, slice, walk(b.view_attribute::<W>(&A).into_iter(), n, |x, j| value_is(x, pa, 2, j))));
//@ fns: AttributeIteratorByRef::new, AttributeIteratorByRef::next, AttributeIteratorByRef::nth, AttributeView::iter
proof!(attr_ref_col, { let (b, pa, pb, n) = col(); let v = b.view_attribute::<W>(&A); walk(v.iter(), n, |x, j| value_at(x, pa, j)) });
//@ fns: AttributeIteratorByRef::new, AttributeIteratorByRef::next, AttributeIteratorByRef::nth
proof!(attr_ref_slice, col_slice!(b, pa, pb, n, slice, { let v = b.view_attribute::<W>(&A); walk(v.iter(), n, |x, j| value_at(x, pa, j)) }));
//@ fns: AttributeViewMut::iter
proof!(attr_ref_viewmut, { let (mut b, pa, pb, n) = col(); let v = b.view_attribute_mut::<W>(&A); walk(v.iter(), n, |x, j| value_at(x, pa, j)) });
//@ fns: AttributeIteratorByMut::new, AttributeIteratorByMut::next, AttributeIteratorByMut::nth, AttributeViewMut::iter_mut
proof!(attr_mut_col, { let (mut b, pa, pb, n) = col(); let mut v = b.view_attribute_mut::<W>(&A); walk(v.iter_mut(), n, |x, j| value_at(x, pa, j)) });
//@ fns: AttributeIteratorByMut::new, AttributeIteratorByMut::next, AttributeIteratorByMut::nth
proof!(attr_mut_slice, col_slice!(b, pa, pb, n, slice_mut, { let mut v = b.view_attribute_mut::<W>(&A); walk(v.iter_mut(), n, |x, j| value_at(x, pa, j)) }));
//@ fns: PointIteratorByValue::next
proof!(point_value_fresh, { let (b, p, n) = il::<V>(); fresh(b.view::<T4>().into_iter(), n, |x, j| point_is(&x, p, j)) });
//@ fns: PointIteratorByRef::next
proof!(point_ref_fresh, { let (b, p, n) = il::<V>(); let v = b.view::<T4>(); fresh(v.iter(), n, |x, j| point_at(x, p, j)) });
//@ fns: PointIteratorByMut::next
proof!(point_mut_fresh, { let (mut b, p, n) = il::<V>(); let mut v = b.view_mut::<T4>(); fresh(v.iter_mut(), n, |x, j| point_at(x, p, j)) });
//@ fns: AttributeIteratorByValue::next
proof!(attr_value_fresh, { let (b, pa, pb, n) = col(); fresh(b.view_attribute::<W>(&A).into_iter(), n, |x, j| value_is(x, pa, 2, j)) });
//@ fns: AttributeIteratorByRef::next
proof!(attr_ref_fresh, { let (b, pa, pb, n) = col(); let v = b.view_attribute::<W>(&A); fresh(v.iter(), n, |x, j| value_at(x, pa, j)) });
//@ fns: AttributeIteratorByMut::next
proof!(attr_mut_fresh, { let (mut b, pa, pb, n) = col(); let mut v = b.view_attribute_mut::<W>(&A); fresh(v.iter_mut(), n, |x, j| value_at(x, pa, j)) });

//@ fns: PointIteratorByRef::count
//@ kind: bounded(buffers of at most 3 points)
proof!(point_ref_count, { let (b, p, n) = il::<V>(); let v = b.view::<T4>(); count(v.iter(), n) });
//@ fns: PointIteratorByMut::last
//@ kind: bounded(buffers of at most 3 points)
proof!(point_mut_last, { let (mut b, p, n) = il::<V>(); let mut v = b.view_mut::<T4>(); last(v.iter_mut(), n, |x, j| point_at(x, p, j)) });
//@ fns: AttributeIteratorByRef::last
//@ kind: bounded(buffers of at most 3 points)
proof!(attr_ref_last, { let (b, pa, pb, n) = col(); let v = b.view_attribute::<W>(&A); last(v.iter(), n, |x, j| value_at(x, pa, j)) });
//@ fns: AttributeIteratorByMut::count
//@ kind: bounded(buffers of at most 3 points)
proof!(attr_mut_count, { let (mut b, pa, pb, n) = col(); let mut v = b.view_attribute_mut::<W>(&A); count(v.iter_mut(), n) });

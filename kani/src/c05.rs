//! C05: growing, shrinking and filling buffers. Existing points: any number. The number of new points is arbitrary where
//! the real code copies memory as a whole, and fixed (bounded) where it loops over the new points.
use crate::support::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

const S: usize = 4;

/// any bytes whose number is arbitrary, and their address
fn data(n: usize) -> (Vec<u8>, *const u8) {
    let d = any_bytes(n);
    let p = d.as_ptr();
    (d, p)
}
fn vector(n: usize) -> VectorBuffer {
    VectorBuffer::kani_from_parts(Q::layout(), any_bytes(n * S), n)
}
/// byte `o` of point `i`
fn vbyte(b: &VectorBuffer, i: usize, o: usize) -> u8 {
    b.get_point_ref(i)[o]
}
/// byte `o` (not padding) of point `i`
fn cbyte(b: &HashMapBuffer, i: usize, o: usize) -> u8 {
    if o == 0 {
        b.get_attribute_ref(&B, i)[0]
    } else {
        b.get_attribute_ref(&A, i)[o - 2]
    }
}
/// offset of a byte of an attribute within a point of layout `Q`
fn attribute_byte() -> usize {
    let o = lt(S);
    kani::assume(!Q::is_padding(o));
    o
}

/// old points unchanged, `k` new points equal to `source` (bytes in the layout's interleaved form)
macro_rules! grows {
    ($b:ident, $byte:ident, $n:expr, $k:expr, $all_bytes:expr, $source:expr, $op:expr) => {{
        let (n, k) = ($n, $k);
        let (i, j) = (lt(n), lt(k));
        let o = if $all_bytes { lt(S) } else { attribute_byte() };
        let old = $byte(&$b, i, o);
        let source: *const u8 = $source;
        let new = rd(source, j * S + o);
        $op;
        kani::cover!(i > 5 && j + 1 == k && o == 3);
        assert!($b.len() == n + k, "C05 the buffer has exactly the additional points");
        assert!($b.kani_is_well_formed(), "C05 the memory matches the number of points");
        assert!($byte(&$b, i, o) == old, "C05 the existing points are unchanged");
        assert!($byte(&$b, n + j, o) == new, "C05 the new points follow in order");
    }};
}

//@ fns: VectorBuffer::push_points
proof!(v_push, {
    let (n, k) = (any_len(), any_len());
    let mut b = vector(n);
    let (d, p) = data(k * S);
    grows!(b, vbyte, n, k, true, p, unsafe { b.push_points(&d) });
});
//@ fns: VectorBuffer::push_points, VectorBuffer::new_from_layout
proof!(v_push_empty, {
    let k = any_len();
    let mut b = VectorBuffer::new_from_layout(Q::layout());
    assert!(b.len() == 0 && b.kani_is_well_formed(), "C05 a new buffer is empty");
    let (d, p) = data(k * S);
    let (j, o) = (lt(k), lt(S));
    unsafe { b.push_points(&d) };
    kani::cover!(j > 4);
    assert!(b.len() == k && b.kani_is_well_formed(), "C05 the buffer has exactly the pushed points");
    assert!(vbyte(&b, j, o) == rd(p, j * S + o), "C05 the pushed points are stored in order");
});
//@ fns: VectorBuffer::push_points
//@ expect: panic
proof!(mp_v_push, {
    let n = any_len0();
    let mut b = vector(n);
    let m = any_len0();
    kani::assume(m % S != 0);
    let (d, _) = data(m);
    kani::cover!(m == 3);
    kani::cover!(m > 100);
    unsafe { b.push_points(&d) };
    must_panic()
});
//@ fns: HashMapBuffer::push_points
//@ kind: bounded(2 new points, any number of existing points)
proof!(c_push, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let (d, p) = data(2 * S);
    grows!(b, cbyte, n, 2, false, p, unsafe { b.push_points(&d) });
});
//@ fns: HashMapBuffer::push_points, HashMapBuffer::new_from_layout
//@ kind: bounded(3 new points)
proof!(c_push_empty, 6, {
    let mut b = HashMapBuffer::new_from_layout(Q::layout());
    assert!(b.len() == 0 && b.kani_is_well_formed(), "C05 a new buffer is empty");
    let (d, p) = data(3 * S);
    let (j, o) = (lt(3), attribute_byte());
    unsafe { b.push_points(&d) };
    kani::cover!(j == 2);
    assert!(b.len() == 3 && b.kani_is_well_formed(), "C05 the buffer has exactly the pushed points");
    assert!(cbyte(&b, j, o) == rd(p, j * S + o), "C05 the pushed points are stored in order");
});
fn incomplete_point(m: usize) {
    let n = any_len0();
    let (mut b, _, _) = columns::<Q>(n);
    let (d, _) = data(m);
    kani::cover!(n == 3);
    unsafe { b.push_points(&d) };
    must_panic()
}
//@ fns: HashMapBuffer::push_points
//@ expect: panic
//@ kind: bounded(3 bytes)
proof!(mp_c_push, { incomplete_point(3) });
//@ fns: HashMapBuffer::push_points
//@ expect: panic
//@ kind: bounded(5 bytes)
proof!(mp_c_push_more, { incomplete_point(5) });

//@ fns: VectorBuffer::append_interleaved
proof!(v_append_interleaved, {
    let (n, k) = (any_len(), any_len());
    let mut b = vector(n);
    let (d, p) = data(k * S);
    let other = VectorBuffer::kani_from_parts(Q::layout(), d, k);
    grows!(b, vbyte, n, k, true, p, b.append_interleaved(&other));
    assert!(other.len() == k && other.kani_is_well_formed(), "C05 the source is unchanged");
});
//@ fns: VectorBuffer::append_interleaved
proof!(v_append_external, {
    let (n, k) = (any_len(), any_len());
    let mut b = vector(n);
    let (d, p) = data(k * S);
    let other = ExternalMemoryBuffer::new(d, Q::layout());
    grows!(b, vbyte, n, k, true, p, b.append_interleaved(&other));
});
//@ fns: HashMapBuffer::append_interleaved
//@ kind: bounded(2 new points, any number of existing points)
proof!(c_append_interleaved, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let (d, p) = data(2 * S);
    let other = VectorBuffer::kani_from_parts(Q::layout(), d, 2);
    grows!(b, cbyte, n, 2, false, p, b.append_interleaved(&other));
});
/// old points unchanged, `k` new points equal to the points of the columnar buffer with the columns `pa`, `pb`
macro_rules! grows_from_columns {
    ($b:ident, $byte:ident, $n:expr, $k:expr, $pa:expr, $pb:expr, $op:expr) => {{
        let (n, k) = ($n, $k);
        let (i, j, o) = (lt(n), lt(k), attribute_byte());
        let old = $byte(&$b, i, o);
        let new = if o == 0 { rd($pb, j) } else { rd($pa, 2 * j + o - 2) };
        $op;
        kani::cover!(i > 5 && j + 1 == k && o == 3);
        assert!($b.len() == n + k, "C05 the buffer has exactly the additional points");
        assert!($b.kani_is_well_formed(), "C05 the memory matches the number of points");
        assert!($byte(&$b, i, o) == old, "C05 the existing points are unchanged");
        assert!($byte(&$b, n + j, o) == new, "C05 the new points follow in order");
    }};
}
//@ fns: HashMapBuffer::append_columnar
proof!(c_append_columnar, {
    let (n, k) = (any_len(), any_len());
    let (mut b, _, _) = columns::<Q>(n);
    let (other, pa, pb) = columns::<Q>(k);
    grows_from_columns!(b, cbyte, n, k, pa, pb, b.append_columnar(&*other));
});
//@ fns: VectorBuffer::append_columnar
//@ kind: bounded(2 new points, any number of existing points)
proof!(v_append_columnar, 12, {
    let n = any_len();
    let mut b = vector(n);
    let (other, pa, pb) = columns::<Q>(2);
    grows_from_columns!(b, vbyte, n, 2, pa, pb, b.append_columnar(&*other));
});
//@ fns: OwningBuffer::append (VectorBuffer from HashMapBuffer)
//@ kind: bounded(2 new points, any number of existing points)
proof!(v_append_c, 12, {
    let n = any_len();
    let mut b = vector(n);
    let (other, pa, pb) = columns::<Q>(2);
    grows_from_columns!(b, vbyte, n, 2, pa, pb, b.append(&*other));
});
//@ fns: OwningBuffer::append (HashMapBuffer from HashMapBuffer)
//@ kind: bounded(1 new point, any number of existing points)
proof!(c_append_c, 6, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let (other, pa, pb) = columns::<Q>(1);
    grows_from_columns!(b, cbyte, n, 1, pa, pb, b.append(&*other));
});
//@ fns: OwningBuffer::append (HashMapBuffer from VectorBuffer)
//@ tier: thorough
//@ kind: bounded(1 new point, any number of existing points)
proof!(c_append_v, 6, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let (d, p) = data(S);
    let other = VectorBuffer::kani_from_parts(Q::layout(), d, 1);
    grows!(b, cbyte, n, 1, false, p, b.append(&other));
});
//@ fns: OwningBuffer::append (VectorBuffer from a slice)
//@ kind: bounded(2 new points, any number of existing points)
proof!(v_append_slice, 12, {
    let n = any_len();
    let mut b = vector(n);
    let (d, p) = data(5 * S);
    let other = VectorBuffer::kani_from_parts(Q::layout(), d, 5);
    let slice = other.slice(2..4);
    grows!(b, vbyte, n, 2, true, p.wrapping_add(2 * S), b.append(&slice));
});
//@ fns: OwningBuffer::append_interleaved (VectorBuffer from a slice)
proof!(v_append_interleaved_slice, {
    let (n, k) = (any_len(), any_len());
    let mut b = vector(n);
    let (d, p) = data((k + 3) * S);
    let other = VectorBuffer::kani_from_parts(Q::layout(), d, k + 3);
    let slice = other.slice(2..2 + k);
    grows!(b, vbyte, n, k, true, p.wrapping_add(2 * S), b.append_interleaved(&slice));
});

/// same attributes as `Q`, other offsets
fn swapped() -> PointLayout {
    static_layout!(2, [A.at_offset_in_type(0), B.at_offset_in_type(2)], 4, 2)
}
/// same attributes and offsets as `Q`, larger points
fn larger() -> PointLayout {
    static_layout!(2, [A.at_offset_in_type(2), B.at_offset_in_type(0)], 6, 2)
}
macro_rules! mismatch {
    ($name:ident, $make:expr, $other:ident($layout:expr), $f:ident) => {
        proof!($name, {
            let (n, k) = (any_len0(), any_len0());
            let mut b = $make(n);
            let other = $other($layout, k);
            kani::cover!(n > 2 && k == 2);
            b.$f(&other);
            must_panic()
        });
    };
}
fn other_v(l: PointLayout, k: usize) -> VectorBuffer {
    let s = l.size_of_point_entry() as usize;
    VectorBuffer::kani_from_parts(l, any_bytes(k * s), k)
}
fn other_c(l: PointLayout, k: usize) -> HashMapBuffer {
    HashMapBuffer::kani_from_parts(l, two((A, any_bytes(2 * k)), (B, any_bytes(k))), k)
}
fn col(n: usize) -> HashMapBuffer {
    ManuallyDrop::into_inner(columns::<Q>(n).0)
}
//@ fns: VectorBuffer::append_interleaved
//@ expect: panic
mismatch!(mp_v_append_interleaved, vector, other_v(swapped()), append_interleaved);
//@ fns: VectorBuffer::append_interleaved
//@ expect: panic
mismatch!(mp_v_append_interleaved_larger, vector, other_v(larger()), append_interleaved);
//@ fns: VectorBuffer::append_columnar
//@ expect: panic
mismatch!(mp_v_append_columnar, vector, other_c(swapped()), append_columnar);
//@ fns: OwningBuffer::append
//@ expect: panic
mismatch!(mp_v_append, vector, other_c(larger()), append);
//@ fns: HashMapBuffer::append_interleaved
//@ expect: panic
mismatch!(mp_c_append_interleaved, col, other_v(swapped()), append_interleaved);
//@ fns: HashMapBuffer::append_columnar
//@ expect: panic
mismatch!(mp_c_append_columnar, col, other_c(larger()), append_columnar);
//@ fns: OwningBuffer::append
//@ expect: panic
mismatch!(mp_c_append, col, other_v(swapped()), append);

/// resize to `m` points: `kept` of them are old
macro_rules! resizes {
    ($b:ident, $byte:ident, $n:expr, $m:expr, $all_bytes:expr) => {{
        let (n, m): (usize, usize) = ($n, $m);
        let o = if $all_bytes { lt(S) } else { attribute_byte() };
        let i = lt(m);
        let old = if i < n { $byte(&$b, i, o) } else { 0 };
        $b.resize(m);
        assert!($b.len() == m, "C05 the buffer has the requested number of points");
        assert!($b.kani_is_well_formed(), "C05 the memory matches the number of points");
        assert!($byte(&$b, i, o) == old, "C05 the first points are kept and new points are zero");
        kani::cover!(i > 1 && i < n && o == 3);
        i >= n
    }};
}
//@ fns: VectorBuffer::resize
proof!(v_shrink, {
    let n = any_len();
    let mut b = vector(n);
    let m = le(n);
    kani::assume(m > 0);
    resizes!(b, vbyte, n, m, true);
});
//@ fns: VectorBuffer::resize
//@ kind: bounded(2 new points, any number of existing points)
proof!(v_grow, 12, {
    let n = any_len();
    let mut b = vector(n);
    let new = resizes!(b, vbyte, n, n + 2, true);
    kani::cover!(new);
});
//@ fns: HashMapBuffer::resize
proof!(c_shrink, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let m = le(n);
    kani::assume(m > 0);
    resizes!(b, cbyte, n, m, false);
});
//@ fns: HashMapBuffer::resize
//@ kind: bounded(2 new points, any number of existing points)
proof!(c_grow, 6, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let new = resizes!(b, cbyte, n, n + 2, false);
    kani::cover!(new);
});
//@ fns: VectorBuffer::clear, HashMapBuffer::clear, VectorBuffer::resize, HashMapBuffer::resize
proof!(clear, 6, {
    let n = any_len0();
    let (mut v, mut c) = (vector(n), col(n));
    kani::cover!(n > 3);
    if kani::any() {
        v.clear();
        c.clear();
    } else {
        v.resize(0);
        c.resize(0);
    }
    assert!(v.len() == 0 && c.len() == 0 && v.is_empty() && c.is_empty(), "C05 a cleared buffer is empty");
    assert!(v.kani_is_well_formed() && c.kani_is_well_formed(), "C05 a cleared buffer has no memory left");
});
//@ fns: VectorBuffer::with_capacity, HashMapBuffer::with_capacity
proof!(with_capacity, 6, {
    let n = any_len0();
    let (v, c) = (VectorBuffer::with_capacity(n, Q::layout()), HashMapBuffer::with_capacity(n, Q::layout()));
    kani::cover!(n > 3);
    assert!(v.len() == 0 && c.len() == 0, "C05 a buffer with capacity has no points");
    assert!(v.kani_is_well_formed() && c.kani_is_well_formed(), "C05 a buffer with capacity has no points");
    assert!(*v.point_layout() == Q::layout() && *c.point_layout() == Q::layout(), "C05 the layout is the given one");
});

fn words(n: usize) -> (Vec<u8>, &'static [W]) {
    let d = any_bytes(2 * n);
    let s = unsafe { std::slice::from_raw_parts(d.as_ptr() as *const W, n) };
    (d, s)
}
fn pushed(a_first: bool) {
    let (n, k) = (any_len(), any_len());
    let (mut b, _, _) = columns::<Q>(n);
    let (d, ws) = words(k);
    let pb = any_bytes(k);
    let (i, j, o) = (lt(n), lt(k), attribute_byte());
    let old = cbyte(&b, i, o);
    let new = if o == 0 { pb[j] } else { d[2 * j + o - 2] };
    let mut pusher = b.begin_push_attributes();
    if a_first {
        pusher.push_attribute_range(&A, ws);
        pusher.push_attribute_range(&B, &pb);
    } else {
        pusher.push_attribute_range(&B, &pb);
        pusher.push_attribute_range(&A, ws);
    }
    pusher.done();
    kani::cover!(i > 5 && j > 5 && o == 3);
    assert!(b.len() == n + k && b.kani_is_well_formed(), "C05 pushing every attribute adds complete points");
    assert!(cbyte(&b, i, o) == old, "C05 the existing points are unchanged");
    assert!(cbyte(&b, n + j, o) == new, "C05 the pushed attributes make up the new points in order");
}
//@ fns: HashMapBufferAttributePusher::push_attribute_range, HashMapBufferAttributePusher::done
proof!(pusher_a_first, 6, { pushed(true) });
//@ fns: HashMapBufferAttributePusher::push_attribute_range, HashMapBufferAttributePusher::done
proof!(pusher_b_first, 6, { pushed(false) });
//@ fns: HashMapBufferAttributePusher::done
proof!(pusher_nothing, 6, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let (i, o) = (lt(n), attribute_byte());
    let old = cbyte(&b, i, o);
    let mut pusher = b.begin_push_attributes();
    if kani::any() {
        pusher.push_attribute_range::<u8>(&B, &[]);
    }
    pusher.done();
    kani::cover!(i > 5);
    assert!(b.len() == n && b.kani_is_well_formed() && cbyte(&b, i, o) == old, "C05 pushing nothing changes nothing");
});
/// the attributes of the new points are incomplete
fn incomplete(case: u8) {
    let (n, k, m) = (any_len0(), any_len(), any_len0());
    let mut b = col(n);
    let (_d, ws) = words(k);
    let pb = any_bytes(m);
    kani::cover!(k > 2);
    let mut pusher = b.begin_push_attributes();
    match case {
        0 => {
            kani::assume(m > 0);
            pusher.push_attribute_range(&B, &pb)
        }
        1 => {
            kani::assume(m != k);
            pusher.push_attribute_range(&A, ws);
            pusher.push_attribute_range(&B, &pb)
        }
        2 => {
            kani::assume(m == k);
            pusher.push_attribute_range(&A, ws);
            pusher.push_attribute_range(&A, ws);
            pusher.push_attribute_range(&B, &pb)
        }
        3 => pusher.push_attribute_range(&X, &pb),
        _ => pusher.push_attribute_range(&A, &pb),
    }
    pusher.done();
    must_panic()
}
//@ fns: HashMapBufferAttributePusher::done
//@ expect: panic
proof!(mp_pusher_missing, { incomplete(0) });
//@ fns: HashMapBufferAttributePusher::push_attribute_range
//@ expect: panic
proof!(mp_pusher_count, { incomplete(1) });
//@ fns: HashMapBufferAttributePusher::push_attribute_range, HashMapBufferAttributePusher::done
//@ expect: panic
proof!(mp_pusher_twice, { incomplete(2) });
//@ fns: HashMapBufferAttributePusher::push_attribute_range
//@ expect: panic
proof!(mp_pusher_unknown, { incomplete(3) });
//@ fns: HashMapBufferAttributePusher::push_attribute_range
//@ expect: panic
proof!(mp_pusher_type, { incomplete(4) });

fn any_point() -> T4 {
    T4 { b: kani::any(), pad: kani::any(), a: kani::any() }
}
/// Collects the points of `all` that `keep` selects through an iterator of kind `KIND`
fn collected<R: FromIterator<T4>>(kind: u8, all: &[T4; 3], keep: &[bool; 3]) -> R {
    let mut at = 0;
    match kind {
        // exact size
        0 => all.iter().copied().collect(),
        // the upper bound is larger than the number of points
        1 => all.iter().zip(keep.iter()).filter(|(_, k)| **k).map(|(p, _)| *p).collect(),
        // no bound
        _ => std::iter::from_fn(|| {
            at += 1;
            if at > 3 { None } else { Some(all[at - 1]) }
        })
        .collect(),
    }
}
fn expected(kind: u8, all: &[T4; 3], keep: &[bool; 3]) -> ([T4; 3], usize) {
    if kind != 1 {
        return (*all, 3);
    }
    let (mut r, mut n, mut i) = (*all, 0, 0);
    while i < 3 {
        if keep[i] {
            r[n] = all[i];
            n += 1;
        }
        i += 1;
    }
    (r, n)
}
fn collect_v(kind: u8) {
    let (all, keep) = ([any_point(), any_point(), any_point()], kani::any());
    let b: VectorBuffer = collected(kind, &all, &keep);
    let (points, n) = expected(kind, &all, &keep);
    kani::cover!(n == 3);
    assert!(b.len() == n && b.kani_is_well_formed(), "C05 the collected buffer has exactly the iterator's points");
    let i = lt(n);
    let o = lt(S);
    kani::cover!(i == 1);
    assert!(vbyte(&b, i, o) == bytemuck::bytes_of(&points[i])[o], "C05 the collected points are the iterator's, in order");
}
fn collect_c(kind: u8) {
    let (all, keep) = ([any_point(), any_point(), any_point()], kani::any());
    let b: HashMapBuffer = collected(kind, &all, &keep);
    let (points, n) = expected(kind, &all, &keep);
    kani::cover!(n == 3);
    assert!(b.len() == n && b.kani_is_well_formed(), "C05 the collected buffer has exactly the iterator's points");
    let i = lt(n);
    let o = attribute_byte();
    kani::cover!(i == 1);
    assert!(cbyte(&b, i, o) == bytemuck::bytes_of(&points[i])[o], "C05 the collected points are the iterator's, in order");
}
//@ fns: VectorBuffer::from_iter
//@ kind: bounded(3 points)
proof!(v_collect_exact, 14, { collect_v(0) });
//@ fns: VectorBuffer::from_iter
//@ kind: bounded(up to 3 points)
proof!(v_collect_filtered, 14, { collect_v(1) });
//@ fns: VectorBuffer::from_iter
//@ kind: bounded(3 points)
proof!(v_collect_unsized, 14, { collect_v(2) });
//@ fns: HashMapBuffer::from_iter
//@ kind: bounded(3 points)
proof!(c_collect_exact, 14, { collect_c(0) });
//@ fns: HashMapBuffer::from_iter
//@ kind: bounded(up to 3 points)
proof!(c_collect_filtered, 14, { collect_c(1) });
//@ fns: VectorBuffer::push_points, HashMapBuffer::push_points
proof!(push_nothing_to_empty_layout, 6, {
    let mut v = VectorBuffer::new_from_layout(PointLayout::default());
    let mut c = HashMapBuffer::new_from_layout(PointLayout::default());
    kani::cover!(true);
    unsafe {
        v.push_points(&[]);
        c.push_points(&[]);
    }
    assert!(v.len() == 0 && c.len() == 0, "C05 pushing no points changes nothing");
});

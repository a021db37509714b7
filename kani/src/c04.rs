//! C04: contracts of the accessors of all buffer kinds against the abstract view (n points, each a record of bytes).
//! Buffer lengths, indices and contents are arbitrary (lengths below 2^40); an arbitrary byte of the buffer stands for
//! "everything else".
use crate::support::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

// ---------------------------------------------------------------- interleaved buffers (vector, external memory)

fn il_point<K: Interleaved, L: Lay>() {
    let n = any_len();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let (i, j, o) = (lt(n), lt(n), lt(L::SIZE));
    let k = j * L::SIZE + o;
    let old = rd(p, k);
    let mut b = K::make::<L>(mem, n);
    assert!(b.len() == n, "C04 len");
    let data = any_bytes(L::SIZE);
    unsafe { b.set_point(i, &data) };
    let expected = if i == j { data[o] } else { old };
    assert!(rd(p, k) == expected, "C04 set_point writes exactly the point");
    let mut out = any_bytes(L::SIZE);
    b.get_point(j, &mut out);
    assert!(out[o] == expected, "C04 get_point reads the point");
    assert!(rd(p, k) == expected && b.len() == n, "C04 get_point changes nothing");
    kani::cover!(i == j);
    kani::cover!(i != j);
    kani::cover!(i == n - 1 && n > 1000000);
}
//@ fns: VectorBuffer::set_point, VectorBuffer::get_point, VectorBuffer::len
//@ tier: thorough
proof!(v_point_p, il_point::<V, P>());
//@ fns: VectorBuffer::set_point, VectorBuffer::get_point
proof!(v_point_q, il_point::<V, Q>());
//@ fns: ExternalMemoryBuffer::set_point, ExternalMemoryBuffer::get_point, ExternalMemoryBuffer::new, ExternalMemoryBuffer::len
//@ tier: thorough
proof!(e_point_p, il_point::<E, P>());
//@ fns: ExternalMemoryBuffer::set_point, ExternalMemoryBuffer::get_point
proof!(e_point_q, il_point::<E, Q>());

fn il_point_range<K: Interleaved, L: Lay>() {
    let n = any_len0();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let r = any_range(n);
    let data = any_bytes((r.end - r.start) * L::SIZE);
    let frame: bool = n > 0;
    let (j, o) = (if frame { lt(n) } else { 0 }, lt(L::SIZE));
    let k = j * L::SIZE + o;
    let old = if frame { rd(p, k) } else { 0 };
    let mut b = K::make::<L>(mem, n);
    unsafe { b.set_point_range(r.clone(), &data) };
    let inside = frame && j >= r.start && j < r.end;
    let expected = if inside { data[(j - r.start) * L::SIZE + o] } else { old };
    if frame {
        assert!(rd(p, k) == expected, "C04 set_point_range writes exactly the range");
    }
    let mut out = any_bytes((r.end - r.start) * L::SIZE);
    b.get_point_range(r.clone(), &mut out);
    if inside {
        assert!(out[(j - r.start) * L::SIZE + o] == expected, "C04 get_point_range reads the range");
    }
    if frame {
        assert!(rd(p, k) == expected && b.len() == n, "C04 get_point_range changes nothing");
    }
    kani::cover!(inside && r.start > 0 && r.end < n);
    kani::cover!(frame && !inside && r.start < r.end);
    kani::cover!(n == 0);
}
//@ fns: VectorBuffer::set_point_range, VectorBuffer::get_point_range
proof!(v_point_range_q, il_point_range::<V, Q>());
//@ fns: ExternalMemoryBuffer::set_point_range, ExternalMemoryBuffer::get_point_range
proof!(e_point_range_q, il_point_range::<E, Q>());

fn il_attribute<K: Interleaved, L: Lay>() {
    let n = any_len();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let is_a: bool = kani::any();
    let (ao, asize) = L::attr(is_a);
    let (i, j, o) = (lt(n), lt(n), lt(L::SIZE));
    let k = j * L::SIZE + o;
    let old = rd(p, k);
    let mut b = K::make::<L>(mem, n);
    let data = any_bytes(asize);
    unsafe { b.set_attribute(&attr(is_a), i, &data) };
    let inside = i == j && o >= ao && o < ao + asize;
    let expected = if inside { data[o - ao] } else { old };
    assert!(rd(p, k) == expected, "C04 set_attribute writes exactly the attribute of the point");
    let mut out = any_bytes(asize);
    b.get_attribute(&attr(is_a), j, &mut out);
    if o >= ao && o < ao + asize {
        assert!(out[o - ao] == expected, "C04 get_attribute reads the attribute of the point");
    }
    assert!(rd(p, k) == expected && b.len() == n, "C04 get_attribute changes nothing");
    kani::cover!(inside);
    kani::cover!(i == j && !inside);
    kani::cover!(i != j && is_a);
}
//@ fns: VectorBuffer::set_attribute, BorrowedBuffer::get_attribute, VectorBuffer::get_attribute_unchecked
//@ tier: thorough
proof!(v_attribute_p, il_attribute::<V, P>());
//@ fns: VectorBuffer::set_attribute, BorrowedBuffer::get_attribute, VectorBuffer::get_attribute_unchecked
proof!(v_attribute_q, il_attribute::<V, Q>());
//@ fns: ExternalMemoryBuffer::set_attribute, BorrowedBuffer::get_attribute, ExternalMemoryBuffer::get_attribute_unchecked
//@ tier: thorough
proof!(e_attribute_p, il_attribute::<E, P>());
//@ fns: ExternalMemoryBuffer::set_attribute, BorrowedBuffer::get_attribute, ExternalMemoryBuffer::get_attribute_unchecked
proof!(e_attribute_q, il_attribute::<E, Q>());

fn il_set_attribute_range<K: Interleaved, L: Lay>(is_a: bool, len: usize) {
    let n = any_len();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let (ao, asize) = L::attr(is_a);
    let r = any_range_of(n, len);
    let (j, o) = (lt(n), lt(L::SIZE));
    let k = j * L::SIZE + o;
    let old = rd(p, k);
    let mut b = K::make::<L>(mem, n);
    let data = any_bytes(len * asize);
    unsafe { b.set_attribute_range(&attr(is_a), r.clone(), &data) };
    let inside = j >= r.start && j < r.end && o >= ao && o < ao + asize;
    let expected = if inside { data[(j - r.start) * asize + (o - ao)] } else { old };
    assert!(rd(p, k) == expected, "C04 set_attribute_range writes exactly the attribute of the range");
    assert!(b.len() == n, "C04 len");
    kani::cover!(inside);
    kani::cover!(!inside);
}
fn il_get_attribute_range<K: Interleaved, L: Lay>(is_a: bool, len: usize) {
    let n = any_len();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let (ao, asize) = L::attr(is_a);
    let r = any_range_of(n, len);
    let (j, o) = (lt(n), lt(asize));
    let old = rd(p, j * L::SIZE + ao + o);
    let b = K::make::<L>(mem, n);
    let mut out = any_bytes(len * asize);
    b.get_attribute_range(&attr(is_a), r.clone(), &mut out);
    let inside = j >= r.start && j < r.end;
    if inside {
        assert!(out[(j - r.start) * asize + o] == old, "C04 get_attribute_range reads the attribute of the range");
    }
    assert!(rd(p, j * L::SIZE + ao + o) == old, "C04 get_attribute_range changes nothing");
    kani::cover!(inside);
}
//@ fns: VectorBuffer::set_attribute_range
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(v_set_attribute_range_a, il_set_attribute_range::<V, Q>(true, 2));
//@ fns: BorrowedBuffer::get_attribute_range, VectorBuffer::get_attribute_unchecked
//@ kind: bounded(range of 2 points, in buffers of any length)
//@ tier: thorough
proof!(v_get_attribute_range_a, il_get_attribute_range::<V, Q>(true, 2));
//@ fns: VectorBuffer::set_attribute_range
//@ kind: bounded(range of 2 points, in buffers of any length)
//@ tier: thorough
proof!(v_set_attribute_range_b, il_set_attribute_range::<V, Q>(false, 2));
//@ fns: BorrowedBuffer::get_attribute_range, VectorBuffer::get_attribute_unchecked
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(v_get_attribute_range_b, il_get_attribute_range::<V, Q>(false, 2));
//@ fns: ExternalMemoryBuffer::set_attribute_range
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(e_set_attribute_range_a, il_set_attribute_range::<E, Q>(true, 2));
//@ fns: BorrowedBuffer::get_attribute_range, ExternalMemoryBuffer::get_attribute_unchecked
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(e_get_attribute_range_a, il_get_attribute_range::<E, Q>(true, 2));
//@ fns: ExternalMemoryBuffer::set_attribute_range
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(e_set_attribute_range_b, il_set_attribute_range::<E, Q>(false, 2));
//@ fns: BorrowedBuffer::get_attribute_range, ExternalMemoryBuffer::get_attribute_unchecked
//@ kind: bounded(range of 2 points, in buffers of any length)
//@ tier: thorough
proof!(e_get_attribute_range_b, il_get_attribute_range::<E, Q>(false, 2));

/// References are exactly the addressed part of the buffer's memory
fn il_refs<K: Interleaved, L: Lay>() {
    let n = any_len();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let i = lt(n);
    let r = any_range(n);
    let mut b = K::make::<L>(mem, n);
    let s = b.get_point_ref(i);
    assert!(s.as_ptr() == unsafe { p.add(i * L::SIZE) } && s.len() == L::SIZE, "C04 get_point_ref");
    let s = b.get_point_range_ref(r.clone());
    assert!(s.len() == (r.end - r.start) * L::SIZE, "C04 get_point_range_ref length");
    assert!(s.as_ptr() == unsafe { p.add(r.start * L::SIZE) }, "C04 get_point_range_ref");
    let s = b.get_point_mut(i);
    assert!(s.as_ptr() == unsafe { p.add(i * L::SIZE) } && s.len() == L::SIZE, "C04 get_point_mut");
    let s = b.get_point_range_mut(r.clone());
    assert!(s.len() == (r.end - r.start) * L::SIZE, "C04 get_point_range_mut length");
    assert!(s.as_ptr() == unsafe { p.add(r.start * L::SIZE) }, "C04 get_point_range_mut");
    assert!(b.as_interleaved().is_some() && b.as_columnar().is_none(), "C04 memory layout");
    assert!(b.as_interleaved_mut().is_some(), "C04 memory layout");
    assert!(b.as_columnar_mut().is_none(), "C04 memory layout");
    assert!(!b.is_empty() && b.len() == n, "C04 len");
    kani::cover!(i > 5 && r.start > 7 && r.end > r.start + 3);
}
//@ fns: VectorBuffer::get_point_ref, VectorBuffer::get_point_range_ref, VectorBuffer::get_point_mut, VectorBuffer::get_point_range_mut
//@ tier: thorough
proof!(v_refs_p, il_refs::<V, P>());
//@ fns: VectorBuffer::get_point_ref, VectorBuffer::get_point_range_ref, VectorBuffer::get_point_mut, VectorBuffer::get_point_range_mut
proof!(v_refs_q, il_refs::<V, Q>());
//@ fns: ExternalMemoryBuffer::get_point_ref, ExternalMemoryBuffer::get_point_range_ref, ExternalMemoryBuffer::get_point_mut, ExternalMemoryBuffer::get_point_range_mut
proof!(e_refs_q, il_refs::<E, Q>());

fn il_raw<K: Interleaved, L: Lay>() {
    let n = any_len();
    let mem = any_bytes(n * L::SIZE);
    let p = mem.as_ptr();
    let i = lt(n);
    let is_a: bool = kani::any();
    let (ao, asize) = L::attr(is_a);
    let mut b = K::make::<L>(mem, n);
    let m = if is_a { A.at_offset_in_type(ao as u64) } else { B.at_offset_in_type(ao as u64) };
    {
        let v = b.view_raw_attribute(&m);
        let s = &v[i];
        assert!(s.len() == asize, "C04 raw view item size");
        assert!(s.as_ptr() == unsafe { p.add(i * L::SIZE + ao) }, "C04 raw view item");
    }
    let mut v = b.view_raw_attribute_mut(&m);
    let s = &v[i];
    assert!(s.len() == asize, "C04 raw mutable view item size");
    assert!(s.as_ptr() == unsafe { p.add(i * L::SIZE + ao) }, "C04 raw mutable view item");
    let s = &mut v[i];
    assert!(s.len() == asize, "C04 raw mutable view item size");
    assert!(s.as_ptr() == unsafe { p.add(i * L::SIZE + ao) }, "C04 raw mutable view item");
    kani::cover!(i > 100 && is_a);
    kani::cover!(i > 100 && !is_a);
}
//@ fns: RawAttributeView::from_interleaved_buffer, RawAttributeView::index, RawAttributeViewMut::from_interleaved_buffer, RawAttributeViewMut::index, RawAttributeViewMut::index_mut
//@ tier: thorough
proof!(v_raw_p, il_raw::<V, P>());
//@ fns: RawAttributeView::from_interleaved_buffer, RawAttributeView::index, RawAttributeViewMut::from_interleaved_buffer, RawAttributeViewMut::index, RawAttributeViewMut::index_mut
proof!(v_raw_q, il_raw::<V, Q>());

/// `RawAttributeView::len`; the division keeps the length bounded
fn raw_len() {
    let n = le(1000);
    kani::assume(n < MAX_LEN);
    let b = V::make::<P>(any_bytes(n * P::SIZE), n);
    let v = b.view_raw_attribute(&B.at_offset_in_type(2));
    assert!(v.len() == n && v.is_empty() == (n == 0), "C04 raw view length");
    let (c, _, _) = columns::<P>(n);
    let v = c.view_raw_attribute(&A.at_offset_in_type(0));
    assert!(v.len() == n && v.is_empty() == (n == 0), "C04 raw view length");
    kani::cover!(n == 0);
    kani::cover!(n > 3);
}
//@ fns: RawAttributeView::len, RawAttributeView::is_empty
//@ kind: bounded(at most 1000 points)
proof!(raw_view_len, raw_len());

/// The length of an external buffer is derived from the memory size
fn ext_new() {
    let m = le(3000);
    kani::assume(m < MAX_LEN * 3);
    let mem = any_bytes(m);
    kani::assume(m % 3 == 0);
    let b = ExternalMemoryBuffer::new(&mem[..], P::layout());
    assert!(b.len() * 3 == m && b.is_empty() == (m == 0), "C04 external memory length");
    kani::cover!(m == 0);
    kani::cover!(m > 9);
}
//@ fns: ExternalMemoryBuffer::new
//@ kind: bounded(at most 3000 bytes)
proof!(e_new, ext_new());

fn ext_new_partial() {
    let m = le(3000);
    kani::assume(m < MAX_LEN * 3);
    kani::assume(m % 3 != 0);
    let mem = any_bytes(m);
    kani::cover!(m > 7);
    let _b = ExternalMemoryBuffer::new(&mem[..], P::layout());
    must_panic()
}
//@ fns: ExternalMemoryBuffer::new
//@ kind: bounded(at most 3000 bytes)
//@ expect: panic
proof!(e_new_partial, ext_new_partial());

// ---------------------------------------------------------------- columnar buffer

fn col_point<L: Lay>() {
    let n = any_len();
    let (mut b, pa, pb) = columns::<L>(n);
    let (i, j) = (lt(n), lt(n));
    let is_a: bool = kani::any();
    let (ao, asize) = L::attr(is_a);
    let o = lt(asize);
    let (pc, _) = column(is_a, pa, pb);
    let k = j * asize + o;
    let old = rd(pc, k);
    let data = any_bytes(L::SIZE);
    unsafe { b.set_point(i, &data) };
    let expected = if i == j { data[ao + o] } else { old };
    assert!(rd(pc, k) == expected, "C04 set_point writes exactly the point");
    let mut out = any_bytes(L::SIZE);
    let q = lt(L::SIZE);
    let before = out[q];
    b.get_point(j, &mut out);
    assert!(out[ao + o] == expected, "C04 get_point reads the point");
    if L::is_padding(q) {
        assert!(out[q] == before, "C04 get_point leaves padding alone");
    }
    assert!(rd(pc, k) == expected && b.len() == n, "C04 get_point changes nothing");
    kani::cover!(i == j && is_a);
    kani::cover!(i != j && !is_a);
}
//@ fns: HashMapBuffer::set_point, HashMapBuffer::get_point
//@ tier: thorough
proof!(c_point_p, col_point::<P>());
//@ fns: HashMapBuffer::set_point, HashMapBuffer::get_point
proof!(c_point_q, col_point::<Q>());

fn col_set_point_range<L: Lay>(is_a: bool, len: usize) {
    let n = any_len();
    let (mut b, pa, pb) = columns::<L>(n);
    let r = any_range_of(n, len);
    let j = lt(n);
    let (ao, asize) = L::attr(is_a);
    let o = lt(asize);
    let (pc, _) = column(is_a, pa, pb);
    let k = j * asize + o;
    let old = rd(pc, k);
    let data = any_bytes(len * L::SIZE);
    unsafe { b.set_point_range(r.clone(), &data) };
    let inside = j >= r.start && j < r.end;
    let expected = if inside { data[(j - r.start) * L::SIZE + ao + o] } else { old };
    assert!(rd(pc, k) == expected, "C04 set_point_range writes exactly the range");
    kani::cover!(inside);
    kani::cover!(!inside);
}
//@ fns: HashMapBuffer::set_point_range
//@ kind: bounded(range of 2 points, in buffers of any length)
//@ tier: thorough
proof!(c_set_point_range_p, col_set_point_range::<P>(false, 2));
//@ fns: HashMapBuffer::set_point_range
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(c_set_point_range_q, col_set_point_range::<Q>(true, 2));

fn col_get_point_range<L: Lay>(is_a: bool, len: usize) {
    let n = any_len();
    let (b, pa, pb) = columns::<L>(n);
    let r = any_range_of(n, len);
    let d = lt(len);
    let (ao, asize) = L::attr(is_a);
    let o = lt(asize);
    let (pc, _) = column(is_a, pa, pb);
    let k = (r.start + d) * asize + o;
    let old = rd(pc, k);
    let mut out = any_bytes(len * L::SIZE);
    let (qd, qo) = (lt(len), lt(L::SIZE));
    let before = out[qd * L::SIZE + qo];
    b.get_point_range(r.clone(), &mut out);
    assert!(out[d * L::SIZE + ao + o] == old, "C04 get_point_range reads the range");
    if L::is_padding(qo) {
        assert!(out[qd * L::SIZE + qo] == before, "C04 get_point_range leaves padding alone");
    }
    assert!(rd(pc, k) == old && b.len() == n, "C04 get_point_range changes nothing");
    kani::cover!(d == len - 1 && r.end == n);
    kani::cover!(r.start > 0 && r.end < n);
}
//@ fns: HashMapBuffer::get_point_range
//@ kind: bounded(range of 2 points, in buffers of any length)
//@ tier: thorough
proof!(c_get_point_range_p, col_get_point_range::<P>(false, 2));
//@ fns: HashMapBuffer::get_point_range
//@ kind: bounded(range of 2 points, in buffers of any length)
proof!(c_get_point_range_q, col_get_point_range::<Q>(true, 2));

fn col_attribute<L: Lay>(is_a: bool) {
    let n = any_len();
    let (mut b, pa, pb) = columns::<L>(n);
    let (i, j) = (lt(n), lt(n));
    let (p, size) = column(is_a, pa, pb);
    let (q, other_size) = column(!is_a, pa, pb);
    let (o, u) = (lt(size), lt(other_size));
    let (old, old_other) = (rd(p, j * size + o), rd(q, j * other_size + u));
    let data = any_bytes(size);
    unsafe { b.set_attribute(&attr(is_a), i, &data) };
    let expected = if i == j { data[o] } else { old };
    assert!(rd(p, j * size + o) == expected, "C04 set_attribute writes exactly the attribute of the point");
    assert!(rd(q, j * other_size + u) == old_other, "C04 set_attribute leaves the other attribute unchanged");
    let mut out = any_bytes(size);
    b.get_attribute(&attr(is_a), j, &mut out);
    assert!(out[o] == expected, "C04 get_attribute reads the attribute of the point");
    assert!(rd(p, j * size + o) == expected && b.len() == n, "C04 get_attribute changes nothing");
    kani::cover!(i == j && o + 1 == size);
    kani::cover!(i != j);
}
//@ fns: HashMapBuffer::set_attribute, HashMapBuffer::get_attribute
//@ tier: thorough
proof!(c_attribute_p_a, col_attribute::<P>(true));
//@ fns: HashMapBuffer::set_attribute, HashMapBuffer::get_attribute
//@ tier: thorough
proof!(c_attribute_p_b, col_attribute::<P>(false));
//@ fns: HashMapBuffer::set_attribute, HashMapBuffer::get_attribute
proof!(c_attribute_q_a, col_attribute::<Q>(true));
//@ fns: HashMapBuffer::set_attribute, HashMapBuffer::get_attribute
proof!(c_attribute_q_b, col_attribute::<Q>(false));

fn col_set_attribute_range(is_a: bool) {
    let n = any_len();
    let (mut b, pa, pb) = columns::<Q>(n);
    let r = any_range(n);
    let j = lt(n);
    let (p, size) = column(is_a, pa, pb);
    let (q, other_size) = column(!is_a, pa, pb);
    let (o, u) = (lt(size), lt(other_size));
    let (old, old_other) = (rd(p, j * size + o), rd(q, j * other_size + u));
    let data = any_bytes((r.end - r.start) * size);
    unsafe { b.set_attribute_range(&attr(is_a), r.clone(), &data) };
    let inside = j >= r.start && j < r.end;
    let expected = if inside { data[(j - r.start) * size + o] } else { old };
    assert!(rd(p, j * size + o) == expected, "C04 set_attribute_range writes exactly the attribute of the range");
    assert!(rd(q, j * other_size + u) == old_other, "C04 set_attribute_range leaves the other attribute unchanged");
    assert!(b.len() == n, "C04 len");
    kani::cover!(inside && r.end - r.start > 1000);
    kani::cover!(!inside && r.end - r.start > 1000);
    kani::cover!(r.start == r.end);
}
//@ fns: HashMapBuffer::set_attribute_range
proof!(c_set_attribute_range_a, col_set_attribute_range(true));
//@ fns: HashMapBuffer::set_attribute_range
proof!(c_set_attribute_range_b, col_set_attribute_range(false));

fn col_get_attribute_range(is_a: bool, len: usize) {
    let n = any_len();
    let (b, pa, pb) = columns::<Q>(n);
    let r = any_range_of(n, len);
    let j = lt(n);
    let (pc, asize) = column(is_a, pa, pb);
    let o = lt(asize);
    let k = j * asize + o;
    let old = rd(pc, k);
    let mut out = any_bytes(len * asize);
    b.get_attribute_range(&attr(is_a), r.clone(), &mut out);
    let inside = j >= r.start && j < r.end;
    if inside {
        assert!(out[(j - r.start) * asize + o] == old, "C04 get_attribute_range reads the attribute of the range");
    }
    assert!(rd(pc, k) == old && b.len() == n, "C04 get_attribute_range changes nothing");
    kani::cover!(inside);
}
//@ fns: BorrowedBuffer::get_attribute_range, HashMapBuffer::get_attribute_unchecked
//@ kind: bounded(range of 3 points, in buffers of any length)
proof!(c_get_attribute_range, col_get_attribute_range(true, 3));

fn col_refs() {
    let n = any_len();
    let (mut b, pa, pb) = columns::<Q>(n);
    let i = lt(n);
    let r = any_range(n);
    let is_a: bool = kani::any();
    let (pc, asize) = column(is_a, pa, pb);
    let at = attr(is_a);
    let s = b.get_attribute_ref(&at, i);
    assert!(s.as_ptr() == unsafe { pc.add(i * asize) } && s.len() == asize, "C04 get_attribute_ref");
    let s = b.get_attribute_range_ref(&at, r.clone());
    assert!(s.len() == (r.end - r.start) * asize, "C04 get_attribute_range_ref length");
    assert!(s.as_ptr() == unsafe { pc.add(r.start * asize) }, "C04 get_attribute_range_ref");
    let s = b.get_attribute_mut(&at, i);
    assert!(s.as_ptr() == unsafe { pc.add(i * asize) } && s.len() == asize, "C04 get_attribute_mut");
    let s = b.get_attribute_range_mut(&at, r.clone());
    assert!(s.len() == (r.end - r.start) * asize, "C04 get_attribute_range_mut length");
    assert!(s.as_ptr() == unsafe { pc.add(r.start * asize) }, "C04 get_attribute_range_mut");
    assert!(b.as_columnar().is_some() && b.as_interleaved().is_none(), "C04 memory layout");
    assert!(b.as_columnar_mut().is_some(), "C04 memory layout");
    assert!(b.as_interleaved_mut().is_none(), "C04 memory layout");
    assert!(b.len() == n && !b.is_empty(), "C04 len");
    kani::cover!(i > 5 && r.start > 7 && r.end > r.start + 3);
}
//@ fns: HashMapBuffer::get_attribute_ref, HashMapBuffer::get_attribute_range_ref, HashMapBuffer::get_attribute_mut, HashMapBuffer::get_attribute_range_mut
proof!(c_refs, col_refs());

fn col_raw() {
    let n = any_len();
    let (mut b, pa, pb) = columns::<Q>(n);
    let i = lt(n);
    let is_a: bool = kani::any();
    let (pc, asize) = column(is_a, pa, pb);
    let m = if is_a { A.at_offset_in_type(2) } else { B.at_offset_in_type(0) };
    {
        let v = b.view_raw_attribute(&m);
        let s = &v[i];
        assert!(s.len() == asize, "C04 raw view item size");
        assert!(s.as_ptr() == unsafe { pc.add(i * asize) }, "C04 raw view item");
    }
    let mut v = b.view_raw_attribute_mut(&m);
    let s = &v[i];
    assert!(s.len() == asize, "C04 raw mutable view item size");
    assert!(s.as_ptr() == unsafe { pc.add(i * asize) }, "C04 raw mutable view item");
    let s = &mut v[i];
    assert!(s.len() == asize, "C04 raw mutable view item size");
    assert!(s.as_ptr() == unsafe { pc.add(i * asize) }, "C04 raw mutable view item");
    kani::cover!(i > 100 && is_a);
    kani::cover!(i > 100 && !is_a);
}
//@ fns: RawAttributeView::from_columnar_buffer, RawAttributeView::index, RawAttributeViewMut::from_columnar_buffer, RawAttributeViewMut::index, RawAttributeViewMut::index_mut
proof!(c_raw, col_raw());

// ---------------------------------------------------------------- must panic

/// Performs the access number `op` with index or range end `i` on any buffer; data has the right size
fn access<'a, T: BorrowedMutBuffer<'a>, L: Lay>(b: &mut T, op: u8, i: usize) {
    let mut point = any_bytes(L::SIZE);
    let mut two = any_bytes(2 * L::SIZE);
    match op {
        0 => b.get_point(i, &mut point),
        1 => unsafe { b.set_point(i, &point) },
        2 => b.get_attribute(&B, i, &mut point[..1]),
        _ => unsafe { b.set_attribute(&B, i, &point[..1]) },
    }
}
/// The same for the range of two points around `i` of which `overlap` lie before `i`
fn access_range<'a, T: BorrowedMutBuffer<'a>, L: Lay>(b: &mut T, op: u8, i: usize, overlap: usize) {
    let mut two = any_bytes(2 * L::SIZE);
    let r = (i - overlap)..(i + 2 - overlap);
    match op {
        0 => b.get_point_range(r, &mut two),
        1 => unsafe { b.set_point_range(r, &two) },
        2 => b.get_attribute_range(&B, r, &mut two[..2]),
        _ => unsafe { b.set_attribute_range(&B, r, &two[..2]) },
    }
}
fn mp_il<K: Interleaved>(op: u8, range: bool) {
    let n = any_len();
    let mut b = K::make::<Q>(any_bytes(n * 4), n);
    let i = ge(n);
    kani::cover!(i == n);
    if range {
        access_range::<_, Q>(&mut b, op, i, 1);
    } else {
        access::<_, Q>(&mut b, op, i);
    }
    must_panic()
}
fn mp_col(op: u8, range: bool) {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let i = if range { n } else { ge(n) };
    kani::cover!(i == n);
    if range {
        access_range::<_, Q>(&mut *b, op, i, if op < 2 { 0 } else { 1 });
    } else {
        access::<_, Q>(&mut *b, op, i);
    }
    must_panic()
}
//@ fns: VectorBuffer::get_point
//@ expect: panic
proof!(mp_v_get_point, mp_il::<V>(0, false));
//@ fns: VectorBuffer::get_point_range
//@ expect: panic
proof!(mp_v_get_point_range, mp_il::<V>(0, true));
//@ fns: VectorBuffer::set_point
//@ expect: panic
proof!(mp_v_set_point, mp_il::<V>(1, false));
//@ fns: VectorBuffer::set_point_range
//@ expect: panic
proof!(mp_v_set_point_range, mp_il::<V>(1, true));
//@ fns: VectorBuffer::get_attribute
//@ expect: panic
proof!(mp_v_get_attribute, mp_il::<V>(2, false));
//@ fns: VectorBuffer::get_attribute_range
//@ expect: panic
proof!(mp_v_get_attribute_range, mp_il::<V>(2, true));
//@ fns: VectorBuffer::set_attribute
//@ expect: panic
proof!(mp_v_set_attribute, mp_il::<V>(3, false));
//@ fns: VectorBuffer::set_attribute_range
//@ expect: panic
proof!(mp_v_set_attribute_range, mp_il::<V>(3, true));
//@ fns: ExternalMemoryBuffer::get_point
//@ expect: panic
proof!(mp_e_get_point, mp_il::<E>(0, false));
//@ fns: ExternalMemoryBuffer::get_point_range
//@ expect: panic
proof!(mp_e_get_point_range, mp_il::<E>(0, true));
//@ fns: ExternalMemoryBuffer::set_point
//@ expect: panic
proof!(mp_e_set_point, mp_il::<E>(1, false));
//@ fns: ExternalMemoryBuffer::set_point_range
//@ expect: panic
proof!(mp_e_set_point_range, mp_il::<E>(1, true));
//@ fns: ExternalMemoryBuffer::get_attribute
//@ expect: panic
proof!(mp_e_get_attribute, mp_il::<E>(2, false));
//@ fns: ExternalMemoryBuffer::get_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_e_get_attribute_range, mp_il::<E>(2, true));
//@ fns: ExternalMemoryBuffer::set_attribute
//@ expect: panic
proof!(mp_e_set_attribute, mp_il::<E>(3, false));
//@ fns: ExternalMemoryBuffer::set_attribute_range
//@ expect: panic
proof!(mp_e_set_attribute_range, mp_il::<E>(3, true));
//@ fns: HashMapBuffer::get_point
//@ expect: panic
proof!(mp_c_get_point, mp_col(0, false));
//@ fns: HashMapBuffer::get_point_range
//@ expect: panic
proof!(mp_c_get_point_range, mp_col(0, true));
//@ fns: HashMapBuffer::set_point
//@ expect: panic
proof!(mp_c_set_point, mp_col(1, false));
//@ fns: HashMapBuffer::set_point_range
//@ expect: panic
proof_cadical!(mp_c_set_point_range, mp_col(1, true));
//@ fns: HashMapBuffer::get_attribute
//@ expect: panic
proof!(mp_c_get_attribute, mp_col(2, false));
//@ fns: HashMapBuffer::get_attribute_range
//@ expect: panic
proof!(mp_c_get_attribute_range, mp_col(2, true));
//@ fns: HashMapBuffer::set_attribute
//@ expect: panic
proof!(mp_c_set_attribute, mp_col(3, false));
//@ fns: HashMapBuffer::set_attribute_range
//@ expect: panic
proof!(mp_c_set_attribute_range, mp_col(3, true));

/// References beyond the end
fn mp_il_refs<K: Interleaved>() {
    let n = any_len();
    let mut b = K::make::<Q>(any_bytes(n * 4), n);
    let i = ge(n);
    let s = le(n);
    let m = B.at_offset_in_type(0);
    kani::cover!(i == n);
    match lt(6) {
        0 => drop(b.get_point_ref(i).len()),
        1 => drop(b.get_point_mut(i).len()),
        2 => drop(b.get_point_range_ref(s..i + 1).len()),
        3 => drop(b.get_point_range_mut(s..i + 1).len()),
        4 => drop(b.view_raw_attribute(&m)[i].len()),
        _ => drop(b.view_raw_attribute_mut(&m)[i].len()),
    }
    must_panic()
}
//@ fns: VectorBuffer::get_point_ref, VectorBuffer::get_point_mut, VectorBuffer::get_point_range_ref, VectorBuffer::get_point_range_mut, RawAttributeView::index, RawAttributeViewMut::index
//@ expect: panic
proof!(mp_v_refs, mp_il_refs::<V>());
//@ fns: ExternalMemoryBuffer::get_point_ref, ExternalMemoryBuffer::get_point_mut, ExternalMemoryBuffer::get_point_range_ref, ExternalMemoryBuffer::get_point_range_mut
//@ expect: panic
proof!(mp_e_refs, mp_il_refs::<E>());
fn mp_col_refs_() {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let i = ge(n);
    let s = le(n);
    let m = A.at_offset_in_type(2);
    kani::cover!(i == n);
    match lt(6) {
        0 => drop(b.get_attribute_ref(&A, i).len()),
        1 => drop(b.get_attribute_mut(&A, i).len()),
        2 => drop(b.get_attribute_range_ref(&A, s..i + 1).len()),
        3 => drop(b.get_attribute_range_mut(&A, s..i + 1).len()),
        4 => drop(b.view_raw_attribute(&m)[i].len()),
        _ => drop(b.view_raw_attribute_mut(&m)[i].len()),
    }
    must_panic()
}
//@ fns: HashMapBuffer::get_attribute_ref, HashMapBuffer::get_attribute_mut, HashMapBuffer::get_attribute_range_ref, HashMapBuffer::get_attribute_range_mut, RawAttributeView::index, RawAttributeViewMut::index
//@ expect: panic
proof!(mp_c_refs, mp_col_refs_());

/// Attributes that are not part of the layout (other name, or same name with another type)
fn mp_unknown<'a, T: BorrowedMutBuffer<'a>>(mut b: T, n: usize, x: PointAttributeDefinition, op: u8) {
    let i = lt(n);
    let mut d = any_bytes(1);
    kani::cover!(i > 3);
    match op {
        0 => b.get_attribute(&x, i, &mut d),
        1 => unsafe { b.set_attribute(&x, i, &d) },
        2 => b.get_attribute_range(&x, i..i + 1, &mut d),
        _ => unsafe { b.set_attribute_range(&x, i..i + 1, &d) },
    }
    must_panic()
}
/// Too little data
fn mp_short<'a, T: BorrowedMutBuffer<'a>>(mut b: T, n: usize, op: u8) {
    let i = lt(n);
    kani::assume(i + 1 < n);
    let mut d = any_bytes(7);
    let short = lt(4);
    kani::cover!(i > 3 && short == 3);
    match op {
        0 => b.get_point(i, &mut d[..short]),
        1 => unsafe { b.set_point(i, &d[..short]) },
        2 => b.get_attribute(&A, i, &mut d[..1]),
        3 => unsafe { b.set_attribute(&A, i, &d[..1]) },
        4 => b.get_point_range(i..i + 1, &mut d[..short]),
        5 => unsafe { b.set_point_range(i..i + 1, &d[..short]) },
        6 => b.get_attribute_range(&A, i..i + 2, &mut d[..3]),
        _ => unsafe { b.set_attribute_range(&A, i..i + 2, &d[..3]) },
    }
    must_panic()
}
fn mp_buf_v() -> (VectorBuffer, usize) {
    let n = any_len();
    (V::make::<Q>(any_bytes(4 * n), n), n)
}
fn mp_buf_e() -> (ExternalMemoryBuffer<Vec<u8>>, usize) {
    let n = any_len();
    (E::make::<Q>(any_bytes(4 * n), n), n)
}
fn mp_buf_c() -> (HashMapBuffer, usize) {
    let n = any_len();
    (ManuallyDrop::into_inner(columns::<Q>(n).0), n)
}
//@ fns: VectorBuffer::get_attribute
//@ expect: panic
proof!(mp_v_get_attribute_unknown, { let (b, n) = mp_buf_v(); mp_unknown(b, n, A8, 0) });
//@ fns: VectorBuffer::set_attribute
//@ expect: panic
proof!(mp_v_set_attribute_unknown, { let (b, n) = mp_buf_v(); mp_unknown(b, n, X, 1) });
//@ fns: VectorBuffer::get_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_v_get_attribute_range_unknown, { let (b, n) = mp_buf_v(); mp_unknown(b, n, A8, 2) });
//@ fns: VectorBuffer::set_attribute_range
//@ expect: panic
proof!(mp_v_set_attribute_range_unknown, { let (b, n) = mp_buf_v(); mp_unknown(b, n, X, 3) });
//@ fns: VectorBuffer::get_point
//@ expect: panic
proof!(mp_v_get_point_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 0) });
//@ fns: VectorBuffer::set_point
//@ expect: panic
proof!(mp_v_set_point_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 1) });
//@ fns: VectorBuffer::get_attribute
//@ expect: panic
proof!(mp_v_get_attribute_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 2) });
//@ fns: VectorBuffer::set_attribute
//@ expect: panic
proof!(mp_v_set_attribute_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 3) });
//@ fns: VectorBuffer::get_point_range
//@ expect: panic
proof!(mp_v_get_point_range_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 4) });
//@ fns: VectorBuffer::set_point_range
//@ expect: panic
proof!(mp_v_set_point_range_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 5) });
//@ fns: VectorBuffer::get_attribute_range
//@ expect: panic
proof!(mp_v_get_attribute_range_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 6) });
//@ fns: VectorBuffer::set_attribute_range
//@ expect: panic
proof!(mp_v_set_attribute_range_short, { let (b, n) = mp_buf_v(); mp_short(b, n, 7) });
//@ fns: ExternalMemoryBuffer::get_attribute
//@ expect: panic
//@ tier: thorough
proof!(mp_e_get_attribute_unknown, { let (b, n) = mp_buf_e(); mp_unknown(b, n, A8, 0) });
//@ fns: ExternalMemoryBuffer::set_attribute
//@ expect: panic
proof!(mp_e_set_attribute_unknown, { let (b, n) = mp_buf_e(); mp_unknown(b, n, X, 1) });
//@ fns: ExternalMemoryBuffer::get_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_e_get_attribute_range_unknown, { let (b, n) = mp_buf_e(); mp_unknown(b, n, A8, 2) });
//@ fns: ExternalMemoryBuffer::set_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_e_set_attribute_range_unknown, { let (b, n) = mp_buf_e(); mp_unknown(b, n, X, 3) });
//@ fns: ExternalMemoryBuffer::get_point
//@ expect: panic
proof!(mp_e_get_point_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 0) });
//@ fns: ExternalMemoryBuffer::set_point
//@ expect: panic
proof!(mp_e_set_point_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 1) });
//@ fns: ExternalMemoryBuffer::get_attribute
//@ expect: panic
//@ tier: thorough
proof!(mp_e_get_attribute_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 2) });
//@ fns: ExternalMemoryBuffer::set_attribute
//@ expect: panic
proof!(mp_e_set_attribute_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 3) });
//@ fns: ExternalMemoryBuffer::get_point_range
//@ expect: panic
//@ tier: thorough
proof!(mp_e_get_point_range_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 4) });
//@ fns: ExternalMemoryBuffer::set_point_range
//@ expect: panic
proof!(mp_e_set_point_range_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 5) });
//@ fns: ExternalMemoryBuffer::get_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_e_get_attribute_range_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 6) });
//@ fns: ExternalMemoryBuffer::set_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_e_set_attribute_range_short, { let (b, n) = mp_buf_e(); mp_short(b, n, 7) });
//@ fns: HashMapBuffer::get_attribute
//@ expect: panic
proof!(mp_c_get_attribute_unknown, { let (b, n) = mp_buf_c(); mp_unknown(b, n, A8, 0) });
//@ fns: HashMapBuffer::set_attribute
//@ expect: panic
proof!(mp_c_set_attribute_unknown, { let (b, n) = mp_buf_c(); mp_unknown(b, n, X, 1) });
//@ fns: HashMapBuffer::get_attribute_range
//@ expect: panic
//@ tier: thorough
proof!(mp_c_get_attribute_range_unknown, { let (b, n) = mp_buf_c(); mp_unknown(b, n, A8, 2) });
//@ fns: HashMapBuffer::set_attribute_range
//@ expect: panic
proof!(mp_c_set_attribute_range_unknown, { let (b, n) = mp_buf_c(); mp_unknown(b, n, X, 3) });
//@ fns: HashMapBuffer::get_point
//@ expect: panic
proof!(mp_c_get_point_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 0) });
//@ fns: HashMapBuffer::set_point
//@ expect: panic
proof!(mp_c_set_point_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 1) });
//@ fns: HashMapBuffer::get_attribute
//@ expect: panic
proof!(mp_c_get_attribute_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 2) });
//@ fns: HashMapBuffer::set_attribute
//@ expect: panic
proof!(mp_c_set_attribute_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 3) });
//@ fns: HashMapBuffer::get_point_range
//@ expect: panic
proof!(mp_c_get_point_range_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 4) });
//@ fns: HashMapBuffer::set_point_range
//@ expect: panic
proof!(mp_c_set_point_range_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 5) });
//@ fns: HashMapBuffer::get_attribute_range
//@ expect: panic
proof!(mp_c_get_attribute_range_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 6) });
//@ fns: HashMapBuffer::set_attribute_range
//@ expect: panic
proof!(mp_c_set_attribute_range_short, { let (b, n) = mp_buf_c(); mp_short(b, n, 7) });

// ---------------------------------------------------------------- long ranges (one concrete size, any content)

const LONG: usize = 20;
const FROM: usize = 2;
const TO: usize = 19;
fn ext_long() {
    let mut mem: [u8; LONG * 4] = kani::any();
    let old = mem;
    let data: [u8; (TO - FROM) * 2] = kani::any();
    let mut b = ExternalMemoryBuffer::new(&mut mem[..], Q::layout());
    unsafe { b.set_attribute_range(&A, FROM..TO, &data) };
    drop(b);
    let mut k = 0;
    while k < LONG * 4 {
        let (j, o) = (k / 4, k % 4);
        let inside = j >= FROM && j < TO && o >= Q::AO;
        let expected = if inside { data[(j - FROM) * 2 + (o - Q::AO)] } else { old[k] };
        assert!(mem[k] == expected, "C04 set_attribute_range writes exactly the attribute of the range");
        k += 1;
    }
    kani::cover!(mem[0] == 1);
}
//@ fns: ExternalMemoryBuffer::set_attribute_range
//@ kind: bounded(range of 17 points in a buffer of 20)
proof!(e_long, 82, ext_long());
fn vec_long() {
    let mem: [u8; LONG * 4] = kani::any();
    let mut b = V::make::<Q>(mem.to_vec(), LONG);
    let data: [u8; (TO - FROM) * 2] = kani::any();
    unsafe { b.set_attribute_range(&A, FROM..TO, &data) };
    let new = b.get_point_range_ref(0..LONG);
    let mut k = 0;
    while k < LONG * 4 {
        let (j, o) = (k / 4, k % 4);
        let inside = j >= FROM && j < TO && o >= Q::AO;
        let expected = if inside { data[(j - FROM) * 2 + (o - Q::AO)] } else { mem[k] };
        assert!(new[k] == expected, "C04 set_attribute_range writes exactly the attribute of the range");
        k += 1;
    }
    kani::cover!(mem[0] == 1);
}
//@ fns: VectorBuffer::set_attribute_range
//@ kind: bounded(range of 17 points in a buffer of 20)
proof!(v_long, 82, vec_long());
const CLONG: usize = 12;
const CTO: usize = 11;
fn col_set_long() {
    let mem: [u8; CLONG * 2] = kani::any();
    let mem2: [u8; CLONG] = kani::any();
    let mut b = HashMapBuffer::kani_from_parts(Q::layout(), two((A, mem.to_vec()), (B, mem2.to_vec())), CLONG);
    let data: [u8; (CTO - FROM) * 4] = kani::any();
    unsafe { b.set_point_range(FROM..CTO, &data) };
    let new = b.get_attribute_range_ref(&A, 0..CLONG);
    let mut k = 0;
    while k < CLONG * 2 {
        let (j, o) = (k / 2, k % 2);
        let inside = j >= FROM && j < CTO;
        let expected = if inside { data[(j - FROM) * 4 + 2 + o] } else { mem[k] };
        assert!(new[k] == expected, "C04 set_point_range writes exactly the range");
        k += 1;
    }
    kani::cover!(mem[0] == 1);
}
//@ fns: HashMapBuffer::set_point_range
//@ kind: bounded(range of 9 points in a buffer of 12)
proof!(c_set_long, 26, col_set_long());
fn col_get_long() {
    let mem: [u8; CLONG * 2] = kani::any();
    let mem2: [u8; CLONG] = kani::any();
    let b = HashMapBuffer::kani_from_parts(Q::layout(), two((A, mem.to_vec()), (B, mem2.to_vec())), CLONG);
    let mut out: [u8; (CTO - FROM) * 4] = kani::any();
    let before = out;
    b.get_point_range(FROM..CTO, &mut out);
    let mut k = 0;
    while k < (CTO - FROM) * 4 {
        let (j, o) = (k / 4 + FROM, k % 4);
        let expected = if o >= 2 { mem[j * 2 + o - 2] } else if o == 0 { mem2[j] } else { before[k] };
        assert!(out[k] == expected, "C04 get_point_range reads the range");
        k += 1;
    }
    kani::cover!(mem[0] == 1);
}
//@ fns: HashMapBuffer::get_point_range
//@ kind: bounded(range of 9 points in a buffer of 12)
proof!(c_get_long, 38, col_get_long());
fn attr_get_long() {
    let mem: [u8; LONG * 4] = kani::any();
    let b = ExternalMemoryBuffer::new(&mem[..], Q::layout());
    let mut out: [u8; (TO - FROM) * 2] = kani::any();
    b.get_attribute_range(&A, FROM..TO, &mut out);
    let mut k = 0;
    while k < (TO - FROM) * 2 {
        let (j, o) = (k / 2 + FROM, k % 2);
        assert!(out[k] == mem[j * 4 + 2 + o], "C04 get_attribute_range reads the range");
        k += 1;
    }
    kani::cover!(mem[0] == 1);
}
//@ fns: BorrowedBuffer::get_attribute_range
//@ kind: bounded(range of 17 points in a buffer of 20)
proof!(e_get_long, 42, attr_get_long());

//! C07: contracts of buffer slices. The parent has any length, the slice is any range of it, nested slices are any
//! range of the slice; an arbitrary byte of the parent stands for "everything else".
use crate::support::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

type L = Q;
const S: usize = Q::SIZE;

// ---------------------------------------------------------------- interleaved, reading

fn il_read<'a, T: InterleavedBuffer<'a>>(s: &T, p: *const u8, g: usize, m: usize) {
    assert!(s.len() == m && s.is_empty() == (m == 0), "C07 length of the slice");
    assert!(s.point_layout().size_of_point_entry() as usize == S, "C07 layout of the slice");
    assert!(s.as_interleaved().is_some() && s.as_columnar().is_none(), "C07 access style of the slice");
    let r = any_range(m);
    let x = s.get_point_range_ref(r.clone());
    assert!(x.len() == (r.end - r.start) * S, "C07 get_point_range_ref length");
    assert!(r.start == r.end || x.as_ptr() == unsafe { p.add((g + r.start) * S) }, "C07 get_point_range_ref");
    if m == 0 {
        return;
    }
    let i = lt(m);
    let x = s.get_point_ref(i);
    assert!(x.as_ptr() == unsafe { p.add((g + i) * S) } && x.len() == S, "C07 get_point_ref");
    let v = s.view_raw_attribute(&A.at_offset_in_type(2));
    assert!(v[i].as_ptr() == unsafe { p.add((g + i) * S + 2) } && v[i].len() == 2, "C07 view_raw_attribute");
    kani::cover!(i > 3 && g > 5 && i < m - 1);
}
fn il_read_values<'a, T: InterleavedBuffer<'a>>(s: &T, p: *const u8, g: usize, m: usize) {
    kani::assume(m > 0);
    let i = lt(m);
    let mut out = any_bytes(S);
    let o = lt(S);
    s.get_point(i, &mut out);
    assert!(out[o] == rd(p, (g + i) * S + o), "C07 get_point");
    let mut out = any_bytes(2);
    let o = lt(2);
    s.get_attribute(&A, i, &mut out);
    assert!(out[o] == rd(p, (g + i) * S + 2 + o), "C07 get_attribute");
    kani::cover!(i > 3 && g > 5);
}
fn il_read_ranges<'a, T: InterleavedBuffer<'a>>(s: &T, p: *const u8, g: usize, m: usize) {
    kani::assume(m > 1);
    let i = lt(m - 1);
    let mut out = any_bytes(2 * S);
    let o = lt(2 * S);
    s.get_point_range(i..i + 2, &mut out);
    assert!(out[o] == rd(p, (g + i) * S + o), "C07 get_point_range");
    let mut out = any_bytes(4);
    let (d, o) = (lt(2), lt(2));
    s.get_attribute_range(&A, i..i + 2, &mut out);
    assert!(out[2 * d + o] == rd(p, (g + i + d) * S + 2 + o), "C07 get_attribute_range");
    kani::cover!(i > 3 && g > 5);
}
/// parent, its memory, its length, slice range
fn il_parent() -> (VectorBuffer, *const u8, usize, std::ops::Range<usize>) {
    let n = any_len();
    let mem = any_bytes(n * S);
    let p = mem.as_ptr();
    (V::make::<L>(mem, n), p, n, any_range(n))
}
macro_rules! ro {
    ($f:ident) => {{
        let (b, p, _, r) = il_parent();
        $f(&b.slice(r.clone()), p, r.start, r.end - r.start);
    }};
}
fn ro_nested() {
    let (b, p, _, r) = il_parent();
    let s = b.slice(r.clone());
    let q = any_range(r.end - r.start);
    let t = s.slice(q.clone());
    il_read(&t, p, r.start + q.start, q.end - q.start);
    kani::cover!(q.end == r.end - r.start && q.start > 0);
}
//@ fns: VectorBuffer::slice, BufferSliceInterleaved::*, BufferSlice::len, BufferSlice::get_point_ref, BufferSlice::get_point_range_ref, get_and_check_global_point_index, get_and_check_global_point_range
proof!(il_ro_refs, ro!(il_read));
//@ fns: BufferSliceInterleaved::get_point, BufferSliceInterleaved::get_attribute_unchecked, BufferSlice::get_point, BufferSlice::get_attribute_unchecked
proof!(il_ro_values, ro!(il_read_values));
//@ fns: BufferSliceInterleaved::get_point_range, BorrowedBuffer::get_attribute_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(il_ro_ranges, ro!(il_read_ranges));
//@ fns: BufferSliceInterleaved::slice, BufferSlice::slice
proof!(il_ro_nested, ro_nested());

macro_rules! mu {
    ($f:ident) => {{
        let (mut b, p, _, r) = il_parent();
        $f(&b.slice_mut(r.clone()), p, r.start, r.end - r.start);
    }};
}
fn mu_nested() {
    let (mut b, p, _, r) = il_parent();
    let mut s = b.slice_mut(r.clone());
    let q = any_range(r.end - r.start);
    let t = s.slice_mut(q.clone());
    il_read(&t, p, r.start + q.start, q.end - q.start);
    kani::cover!(q.end == r.end - r.start && q.start > 0);
}
fn mu_nested_ro() {
    let (mut b, p, _, r) = il_parent();
    let s = b.slice_mut(r.clone());
    let q = any_range(r.end - r.start);
    let t = s.slice(q.clone());
    il_read(&t, p, r.start + q.start, q.end - q.start);
    kani::cover!(q.end == r.end - r.start && q.start > 0);
}
//@ fns: VectorBuffer::slice_mut, BufferSliceInterleavedMut::*, BufferSliceMut::len, BufferSliceMut::get_point_ref, BufferSliceMut::get_point_range_ref
proof!(il_mut_refs, mu!(il_read));
//@ fns: BufferSliceInterleavedMut::get_point, BufferSliceInterleavedMut::get_attribute_unchecked, BufferSliceMut::get_point, BufferSliceMut::get_attribute_unchecked
proof!(il_mut_values, mu!(il_read_values));
//@ fns: BufferSliceInterleavedMut::get_point_range, BorrowedBuffer::get_attribute_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(il_mut_ranges, mu!(il_read_ranges));
//@ fns: BufferSliceInterleavedMut::slice_mut, BufferSliceMut::slice_mut
proof!(il_mut_nested, mu_nested());
//@ fns: BufferSliceInterleavedMut::slice, BufferSliceMut::slice
proof!(il_mut_nested_ro, mu_nested_ro());

// ---------------------------------------------------------------- interleaved, writing

fn il_write_refs() {
    let (mut b, p, _, r) = il_parent();
    let (g, m) = (r.start, r.end - r.start);
    kani::assume(m > 0);
    let mut s = b.slice_mut(r);
    let i = lt(m);
    let q = any_range(m);
    let x = s.get_point_mut(i);
    assert!(x.as_ptr() == unsafe { p.add((g + i) * S) } && x.len() == S, "C07 get_point_mut");
    let x = s.get_point_range_mut(q.clone());
    assert!(x.len() == (q.end - q.start) * S, "C07 get_point_range_mut length");
    assert!(q.start == q.end || x.as_ptr() == unsafe { p.add((g + q.start) * S) }, "C07 get_point_range_mut");
    let mut v = s.view_raw_attribute_mut(&A.at_offset_in_type(2));
    let x = &mut v[i];
    assert!(x.as_ptr() == unsafe { p.add((g + i) * S + 2) } && x.len() == 2, "C07 view_raw_attribute_mut");
    assert!(s.as_interleaved_mut().is_some(), "C07 access style of the slice");
    assert!(s.as_columnar_mut().is_none(), "C07 access style of the slice");
    kani::cover!(i > 3 && g > 5);
}
//@ fns: BufferSliceInterleavedMut::get_point_mut, BufferSliceInterleavedMut::get_point_range_mut, BufferSliceMut::get_point_mut, BufferSliceMut::get_point_range_mut
proof!(il_mut_write_refs, il_write_refs());

/// op 0 set_point, 1 set_attribute, 2 set_point_range, 3 set_attribute_range, 4 swap
fn il_write(op: u8) {
    let (mut b, p, n, r) = il_parent();
    let (g, m) = (r.start, r.end - r.start);
    let len = if op >= 2 && op < 4 { 2 } else { 1 };
    kani::assume(m >= len);
    let i = le(m - len);
    let (j, o) = (lt(n), lt(S));
    let k = j * S + o;
    let old = rd(p, k);
    let other = lt(m);
    let (old_i, old_other) = (rd(p, (g + i) * S + o), rd(p, (g + other) * S + o));
    let data = any_bytes(8);
    let mut s = b.slice_mut(r);
    unsafe {
        match op {
            0 => s.set_point(i, &data[..S]),
            1 => s.set_attribute(&A, i, &data[..2]),
            2 => s.set_point_range(i..i + 2, &data[..2 * S]),
            3 => s.set_attribute_range(&A, i..i + 2, &data[..4]),
            _ => s.swap(i, other),
        }
    }
    let d = if j >= g + i && j < g + i + len { j - g - i } else { 9 };
    let expected = match op {
        0 | 2 if d < len => data[d * S + o],
        1 | 3 if d < len && o >= 2 => data[d * 2 + o - 2],
        4 if j == g + i => old_other,
        4 if j == g + other => old_i,
        _ => old,
    };
    assert!(rd(p, k) == expected, "C07 a write through the slice changes exactly the addressed data");
    kani::cover!(d == len - 1 && g > 0);
    kani::cover!(j == g + m);
    kani::cover!(i == m - len);
}
//@ fns: BufferSliceInterleavedMut::set_point, BufferSliceMut::set_point
proof!(il_set_point, il_write(0));
//@ fns: BufferSliceInterleavedMut::set_attribute, BufferSliceMut::set_attribute
proof!(il_set_attribute, il_write(1));
//@ fns: BufferSliceInterleavedMut::set_point_range, BufferSliceMut::set_point_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(il_set_point_range, il_write(2));
//@ fns: BufferSliceInterleavedMut::set_attribute_range, BufferSliceMut::set_attribute_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(il_set_attribute_range, il_write(3));
//@ fns: BufferSliceInterleavedMut::swap, BufferSliceMut::swap
proof!(il_swap, il_write(4));

// ---------------------------------------------------------------- columnar, reading

fn col_read<'a, T: ColumnarBuffer<'a>>(s: &T, pa: *const u8, pb: *const u8, g: usize, m: usize) {
    assert!(s.len() == m && s.is_empty() == (m == 0), "C07 length of the slice");
    assert!(s.as_interleaved().is_none() && s.as_columnar().is_some(), "C07 access style of the slice");
    let r = any_range(m);
    let x = s.get_attribute_range_ref(&A, r.clone());
    assert!(x.len() == (r.end - r.start) * 2, "C07 get_attribute_range_ref length");
    assert!(r.start == r.end || x.as_ptr() == unsafe { pa.add((g + r.start) * 2) }, "C07 get_attribute_range_ref");
    if m == 0 {
        return;
    }
    let i = lt(m);
    let x = s.get_attribute_ref(&B, i);
    assert!(x.as_ptr() == unsafe { pb.add(g + i) } && x.len() == 1, "C07 get_attribute_ref");
    let v = s.view_raw_attribute(&A.at_offset_in_type(2));
    assert!(v[i].as_ptr() == unsafe { pa.add((g + i) * 2) } && v[i].len() == 2, "C07 view_raw_attribute");
    kani::cover!(i > 3 && g > 5 && i < m - 1);
}
fn col_read_values<'a, T: ColumnarBuffer<'a>>(s: &T, pa: *const u8, pb: *const u8, g: usize, m: usize) {
    kani::assume(m > 0);
    let i = lt(m);
    let mut out = any_bytes(S);
    let o = lt(2);
    s.get_point(i, &mut out);
    assert!(out[2 + o] == rd(pa, (g + i) * 2 + o) && out[0] == rd(pb, g + i), "C07 get_point");
    let mut out = any_bytes(2);
    s.get_attribute(&A, i, &mut out);
    assert!(out[o] == rd(pa, (g + i) * 2 + o), "C07 get_attribute");
    kani::cover!(i > 3 && g > 5);
}
fn col_read_ranges<'a, T: ColumnarBuffer<'a>>(s: &T, pa: *const u8, pb: *const u8, g: usize, m: usize) {
    kani::assume(m > 1);
    let i = lt(m - 1);
    let mut out = any_bytes(4);
    let (d, o) = (lt(2), lt(2));
    s.get_attribute_range(&A, i..i + 2, &mut out);
    assert!(out[2 * d + o] == rd(pa, (g + i + d) * 2 + o), "C07 get_attribute_range");
    kani::cover!(i > 3 && g > 5);
}
fn col_read_point_range<'a, T: ColumnarBuffer<'a>>(s: &T, pa: *const u8, pb: *const u8, g: usize, m: usize) {
    kani::assume(m > 1);
    let i = lt(m - 1);
    let mut out = any_bytes(2 * S);
    let d = lt(2);
    s.get_point_range(i..i + 2, &mut out);
    assert!(out[d * S] == rd(pb, g + i + d), "C07 get_point_range");
    kani::cover!(i > 3 && g > 5);
}
fn col_parent() -> (ManuallyDrop<HashMapBuffer>, *const u8, *const u8, usize, std::ops::Range<usize>) {
    let n = any_len();
    let (b, pa, pb) = columns::<L>(n);
    (b, pa, pb, n, any_range(n))
}
macro_rules! cro {
    ($f:ident) => {{
        let (b, pa, pb, _, r) = col_parent();
        $f(&b.slice(r.clone()), pa, pb, r.start, r.end - r.start);
    }};
}
macro_rules! cmu {
    ($f:ident) => {{
        let (mut b, pa, pb, _, r) = col_parent();
        $f(&b.slice_mut(r.clone()), pa, pb, r.start, r.end - r.start);
    }};
}
//@ fns: HashMapBuffer::slice, BufferSliceColumnar::*, BufferSlice::get_attribute_ref, BufferSlice::get_attribute_range_ref
proof!(col_ro_refs, cro!(col_read));
//@ fns: BufferSliceColumnar::get_point, BufferSliceColumnar::get_attribute_unchecked, BufferSlice::get_point
proof!(col_ro_values, cro!(col_read_values));
//@ fns: BorrowedBuffer::get_attribute_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(col_ro_ranges, cro!(col_read_ranges));
//@ fns: BufferSliceColumnar::get_point_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(col_ro_point_range, cro!(col_read_point_range));
//@ fns: HashMapBuffer::slice_mut, BufferSliceColumnarMut::*, BufferSliceMut::get_attribute_ref, BufferSliceMut::get_attribute_range_ref
proof!(col_mut_refs, cmu!(col_read));
//@ fns: BufferSliceColumnarMut::get_point, BufferSliceColumnarMut::get_attribute_unchecked
proof!(col_mut_values, cmu!(col_read_values));
//@ fns: BorrowedBuffer::get_attribute_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(col_mut_ranges, cmu!(col_read_ranges));
//@ fns: BufferSliceColumnarMut::get_point_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(col_mut_point_range, cmu!(col_read_point_range));

/// BufferSlice and BufferSliceMut without the access style wrappers
fn plain_nested() {
    let (b, pa, pb, _, r) = col_parent();
    let m = r.end - r.start;
    let q = any_range(m);
    let s = BufferSlice::new(&*b, r.clone());
    let t = s.slice(q.clone());
    let (g, m) = (r.start + q.start, q.end - q.start);
    assert!(t.len() == m, "C07 length of the slice");
    kani::assume(m > 0);
    let i = lt(m);
    assert!(t.get_attribute_ref(&A, i).as_ptr() == unsafe { pa.add((g + i) * 2) }, "C07 nested slice");
    kani::cover!(q.end == r.end - r.start && q.start > 0);
}
fn plain_nested_mut() {
    let (mut b, pa, pb, n, r) = col_parent();
    let m = r.end - r.start;
    let q = any_range(m);
    let mut s = BufferSliceMut::new(&mut *b, r.clone());
    let mut t = s.slice_mut(q.clone());
    let (g, m) = (r.start + q.start, q.end - q.start);
    assert!(t.len() == m, "C07 length of the slice");
    kani::assume(m > 0);
    let (i, j, o) = (lt(m), lt(n), lt(2));
    let old = rd(pa, j * 2 + o);
    let d = any_bytes(2);
    unsafe { t.set_attribute(&A, i, &d) };
    assert!(rd(pa, j * 2 + o) == if j == g + i { d[o] } else { old }, "C07 nested slice write");
    assert!(t.get_attribute_ref(&A, i).as_ptr() == unsafe { pa.add((g + i) * 2) }, "C07 nested slice");
    kani::cover!(q.end == r.end - r.start && q.start > 0);
}
//@ fns: BufferSlice::slice
proof!(plain_nested_ro, plain_nested());
//@ fns: BufferSliceMut::slice_mut
proof!(plain_nested_mu, plain_nested_mut());

// ---------------------------------------------------------------- columnar, writing

fn col_write_refs() {
    let (mut b, pa, pb, _, r) = col_parent();
    let (g, m) = (r.start, r.end - r.start);
    kani::assume(m > 0);
    let mut s = b.slice_mut(r);
    let i = lt(m);
    let q = any_range(m);
    let x = s.get_attribute_mut(&B, i);
    assert!(x.as_ptr() == unsafe { pb.add(g + i) } && x.len() == 1, "C07 get_attribute_mut");
    let x = s.get_attribute_range_mut(&A, q.clone());
    assert!(x.len() == (q.end - q.start) * 2, "C07 get_attribute_range_mut length");
    assert!(q.start == q.end || x.as_ptr() == unsafe { pa.add((g + q.start) * 2) }, "C07 get_attribute_range_mut");
    let mut v = s.view_raw_attribute_mut(&A.at_offset_in_type(2));
    let x = &mut v[i];
    assert!(x.as_ptr() == unsafe { pa.add((g + i) * 2) } && x.len() == 2, "C07 view_raw_attribute_mut");
    assert!(s.as_columnar_mut().is_some(), "C07 access style of the slice");
    assert!(s.as_interleaved_mut().is_none(), "C07 access style of the slice");
    kani::cover!(i > 3 && g > 5);
}
//@ fns: BufferSliceColumnarMut::get_attribute_mut, BufferSliceColumnarMut::get_attribute_range_mut, BufferSliceMut::get_attribute_mut, BufferSliceMut::get_attribute_range_mut
proof!(col_mut_write_refs, col_write_refs());

fn col_write(op: u8, fa: bool) {
    let (mut b, pa, pb, n, r) = col_parent();
    let (g, m) = (r.start, r.end - r.start);
    let len = if op >= 2 && op < 4 { 2 } else { 1 };
    kani::assume(m >= len);
    let i = le(m - len);
    let (p, size) = column(fa, pa, pb);
    let (j, o) = (lt(n), lt(size));
    let k = j * size + o;
    let old = rd(p, k);
    let other = lt(m);
    let (old_i, old_other) = (rd(p, (g + i) * size + o), rd(p, (g + other) * size + o));
    let data = any_bytes(8);
    let mut s = b.slice_mut(r);
    unsafe {
        match op {
            0 => s.set_point(i, &data[..S]),
            1 => s.set_attribute(&A, i, &data[..2]),
            2 => s.set_point_range(i..i + 2, &data[..2 * S]),
            3 => s.set_attribute_range(&A, i..i + 2, &data[..4]),
            _ => s.swap(i, other),
        }
    }
    let d = if j >= g + i && j < g + i + len { j - g - i } else { 9 };
    let expected = match op {
        0 | 2 if d < len => data[d * S + if fa { 2 } else { 0 } + o],
        1 | 3 if d < len && fa => data[d * 2 + o],
        4 if j == g + i => old_other,
        4 if j == g + other => old_i,
        _ => old,
    };
    assert!(rd(p, k) == expected, "C07 a write through the slice changes exactly the addressed data");
    kani::cover!(d == len - 1 && g > 0);
    kani::cover!(j == g + m);
    kani::cover!(i == m - len);
}
//@ fns: BufferSliceColumnarMut::set_point, BufferSliceMut::set_point
proof!(col_set_point, col_write(0, true));
//@ fns: BufferSliceColumnarMut::set_attribute, BufferSliceMut::set_attribute
proof!(col_set_attribute, col_write(1, true));
//@ fns: BufferSliceColumnarMut::set_point_range, BufferSliceMut::set_point_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(col_set_point_range, col_write(2, false));
//@ fns: BufferSliceColumnarMut::set_attribute_range, BufferSliceMut::set_attribute_range
//@ kind: bounded(accessed range of 2 points, in slices of any length)
proof!(col_set_attribute_range, col_write(3, true));
//@ fns: BufferSliceColumnarMut::swap, BufferSliceMut::swap
proof_swap!(col_swap, col_write(4, true));

// ---------------------------------------------------------------- accesses outside the slice panic

/// reading accesses every slice offers, at index `i` not below `m`
fn out_read<'a, T: BorrowedBuffer<'a>>(s: &T, m: usize, op: u8) {
    let i = ge(m);
    let mut d = any_bytes(S);
    kani::cover!(i == m);
    match op {
        0 => s.get_point(i, &mut d),
        1 => s.get_attribute(&B, i, &mut d[..1]),
        2 => s.get_point_range(i..i + 1, &mut d),
        _ => s.get_attribute_range(&B, i..i + 1, &mut d[..1]),
    }
    must_panic()
}
fn out_il<'a, T: InterleavedBuffer<'a>>(s: &T, m: usize) {
    let i = ge(m);
    let from = le(m);
    kani::cover!(i == m);
    match lt(3) {
        0 => drop(s.get_point_ref(i).len()),
        1 => drop(s.get_point_range_ref(from..i + 1).len()),
        _ => drop(s.view_raw_attribute(&A.at_offset_in_type(2))[i].len()),
    }
    must_panic()
}
fn out_il_mut<'a, T: InterleavedBufferMut<'a>>(s: &mut T, m: usize) {
    let i = ge(m);
    let from = le(m);
    kani::cover!(i == m);
    match lt(3) {
        0 => drop(s.get_point_mut(i).len()),
        1 => drop(s.get_point_range_mut(from..i + 1).len()),
        _ => drop(s.view_raw_attribute_mut(&A.at_offset_in_type(2))[i].len()),
    }
    must_panic()
}
fn out_col<'a, T: ColumnarBuffer<'a>>(s: &T, m: usize) {
    let i = ge(m);
    let from = le(m);
    kani::cover!(i == m);
    match lt(3) {
        0 => drop(s.get_attribute_ref(&A, i).len()),
        1 => drop(s.get_attribute_range_ref(&A, from..i + 1).len()),
        _ => drop(s.view_raw_attribute(&A.at_offset_in_type(2))[i].len()),
    }
    must_panic()
}
fn out_col_mut<'a, T: ColumnarBufferMut<'a>>(s: &mut T, m: usize) {
    let i = ge(m);
    let from = le(m);
    kani::cover!(i == m);
    match lt(3) {
        0 => drop(s.get_attribute_mut(&A, i).len()),
        1 => drop(s.get_attribute_range_mut(&A, from..i + 1).len()),
        _ => drop(s.view_raw_attribute_mut(&A.at_offset_in_type(2))[i].len()),
    }
    must_panic()
}
fn out_write<'a, T: BorrowedMutBuffer<'a>>(s: &mut T, m: usize, op: u8) {
    let i = ge(m);
    let d = any_bytes(S);
    kani::cover!(i == m);
    unsafe {
        match op {
            0 => s.set_point(i, &d),
            1 => s.set_attribute(&B, i, &d[..1]),
            2 => s.set_point_range(i..i + 1, &d),
            3 => s.set_attribute_range(&B, i..i + 1, &d[..1]),
            4 => {
                kani::assume(m > 0);
                s.swap(lt(m), i)
            }
            _ => {
                kani::assume(m > 0);
                s.swap(i, lt(m))
            }
        }
    }
    must_panic()
}
fn out_slice<'a, T: SliceBuffer<'a>>(s: &'a T, m: usize) {
    let i = ge(m + 1);
    let from = le(i);
    kani::cover!(i == m + 1 && from < m);
    let t = s.slice(from..i);
    must_panic()
}
fn out_slice_mut<'a, T: SliceBufferMut<'a>>(s: &'a mut T, m: usize) {
    let i = ge(m + 1);
    let from = le(i);
    kani::cover!(i == m + 1 && from < m);
    let t = s.slice_mut(from..i);
    must_panic()
}
//@ fns: BufferSliceInterleaved::get_point
//@ expect: panic
proof!(mp_il_ro_get_point, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 0) });
//@ fns: BufferSliceInterleaved::get_attribute
//@ expect: panic
proof!(mp_il_ro_get_attribute, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 1) });
//@ fns: BufferSliceInterleaved::get_point_range
//@ expect: panic
proof!(mp_il_ro_get_point_range, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 2) });
//@ fns: BufferSliceInterleaved::get_attribute_range
//@ expect: panic
proof!(mp_il_ro_get_attribute_range, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 3) });
//@ fns: BufferSliceInterleaved::get_*_ref
//@ expect: panic
proof!(mp_il_ro_refs, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice(r); out_il(&s, m) });
//@ fns: BufferSliceInterleaved::slice
//@ expect: panic
proof!(mp_il_ro_slice, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice(r); out_slice(&s, m) });
//@ fns: BufferSliceInterleavedMut::get_point
//@ expect: panic
proof!(mp_il_mut_get_point, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 0) });
//@ fns: BufferSliceInterleavedMut::get_attribute
//@ expect: panic
proof!(mp_il_mut_get_attribute, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 1) });
//@ fns: BufferSliceInterleavedMut::get_point_range
//@ expect: panic
proof!(mp_il_mut_get_point_range, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 2) });
//@ fns: BufferSliceInterleavedMut::get_attribute_range
//@ expect: panic
proof!(mp_il_mut_get_attribute_range, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 3) });
//@ fns: BufferSliceInterleavedMut::get_*_ref
//@ expect: panic
proof!(mp_il_mut_refs, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_il(&s, m) });
//@ fns: BufferSliceInterleavedMut::slice
//@ expect: panic
proof!(mp_il_mut_slice, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_slice(&s, m) });
//@ fns: BufferSliceInterleavedMut::get_*_mut
//@ expect: panic
proof!(mp_il_mut_refs_mut, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_il_mut(&mut s, m) });
//@ fns: BufferSliceInterleavedMut::slice_mut
//@ expect: panic
proof!(mp_il_mut_slice_mut, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_slice_mut(&mut s, m) });
//@ fns: BufferSliceInterleavedMut::set_point
//@ expect: panic
proof!(mp_il_mut_set_point, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 0) });
//@ fns: BufferSliceInterleavedMut::set_attribute
//@ expect: panic
proof!(mp_il_mut_set_attribute, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 1) });
//@ fns: BufferSliceInterleavedMut::set_point_range
//@ expect: panic
proof!(mp_il_mut_set_point_range, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 2) });
//@ fns: BufferSliceInterleavedMut::set_attribute_range
//@ expect: panic
proof!(mp_il_mut_set_attribute_range, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 3) });
//@ fns: BufferSliceInterleavedMut::swap
//@ expect: panic
proof!(mp_il_mut_swap, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 4) });
//@ fns: BufferSliceInterleavedMut::swap
//@ expect: panic
proof!(mp_il_mut_swap_from, { let (mut b, _, _, r) = il_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 5) });
//@ fns: BufferSliceColumnar::get_point
//@ expect: panic
proof!(mp_col_ro_get_point, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 0) });
//@ fns: BufferSliceColumnar::get_attribute
//@ expect: panic
proof!(mp_col_ro_get_attribute, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 1) });
//@ fns: BufferSliceColumnar::get_point_range
//@ expect: panic
proof!(mp_col_ro_get_point_range, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 2) });
//@ fns: BufferSliceColumnar::get_attribute_range
//@ expect: panic
proof!(mp_col_ro_get_attribute_range, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice(r); out_read(&s, m, 3) });
//@ fns: BufferSliceColumnar::get_*_ref
//@ expect: panic
proof!(mp_col_ro_refs, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice(r); out_col(&s, m) });
//@ fns: BufferSliceColumnarMut::get_point
//@ expect: panic
proof!(mp_col_mut_get_point, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 0) });
//@ fns: BufferSliceColumnarMut::get_attribute
//@ expect: panic
proof!(mp_col_mut_get_attribute, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 1) });
//@ fns: BufferSliceColumnarMut::get_point_range
//@ expect: panic
proof!(mp_col_mut_get_point_range, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 2) });
//@ fns: BufferSliceColumnarMut::get_attribute_range
//@ expect: panic
proof!(mp_col_mut_get_attribute_range, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_read(&s, m, 3) });
//@ fns: BufferSliceColumnarMut::get_*_ref
//@ expect: panic
proof!(mp_col_mut_refs, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let s = b.slice_mut(r); out_col(&s, m) });
//@ fns: BufferSliceColumnarMut::get_*_mut
//@ expect: panic
proof!(mp_col_mut_refs_mut, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_col_mut(&mut s, m) });
//@ fns: BufferSliceColumnarMut::set_point
//@ expect: panic
proof!(mp_col_mut_set_point, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 0) });
//@ fns: BufferSliceColumnarMut::set_attribute
//@ expect: panic
proof!(mp_col_mut_set_attribute, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 1) });
//@ fns: BufferSliceColumnarMut::set_point_range
//@ expect: panic
proof!(mp_col_mut_set_point_range, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 2) });
//@ fns: BufferSliceColumnarMut::set_attribute_range
//@ expect: panic
proof!(mp_col_mut_set_attribute_range, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 3) });
//@ fns: BufferSliceColumnarMut::swap
//@ expect: panic
proof!(mp_col_mut_swap, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 4) });
//@ fns: BufferSliceColumnarMut::swap
//@ expect: panic
proof!(mp_col_mut_swap_from, { let (mut b, _, _, _, r) = col_parent(); let m = r.end - r.start; let mut s = b.slice_mut(r); out_write(&mut s, m, 5) });

//! C06: filtering, swapping, sorting, transforming. `swap` for every buffer length and index pair; the others loop over
//! all points of the buffer, whose number is fixed (bounded), with arbitrary contents and arbitrary predicates.
use crate::support::*;
use pasture_core::containers::*;
use pasture_core::layout::*;

macro_rules! swaps {
    ($name:ident, $I:ty, $L:ty) => {
        proof_swap!($name, {
            let n = any_len();
            let size = <$L as Lay>::SIZE;
            let mem = any_bytes(n * size);
            let p = mem.as_ptr();
            let mut b = <$I as Interleaved>::make::<$L>(mem, n);
            let (i, other, j, o) = (lt(n), lt(n), lt(n), lt(size));
            let old = rd(p, j * size + o);
            let (old_i, old_other) = (rd(p, i * size + o), rd(p, other * size + o));
            b.swap(i, other);
            kani::cover!(i > other && j == i);
            kani::cover!(i > other && j != i && j != other);
            kani::cover!(i == other && j == i);
            assert!(b.len() == n, "C06 swapping keeps the number of points");
            let new = rd(p, j * size + o);
            assert!(
                new == if j == i { old_other } else if j == other { old_i } else { old },
                "C06 swapping exchanges exactly the two points"
            );
        });
    };
}
//@ fns: VectorBuffer::swap
swaps!(il_swap_v_q, V, Q);
//@ fns: VectorBuffer::swap
//@ tier: thorough
swaps!(il_swap_v_p, V, P);
//@ fns: ExternalMemoryBuffer::swap
swaps!(il_swap_e_q, E, Q);

macro_rules! swap_out {
    ($name:ident, $I:ty) => {
        proof_swap!($name, {
            let n = any_len0();
            let mut b = <$I as Interleaved>::make::<Q>(any_bytes(n * 4), n);
            let (i, other): (usize, usize) = (kani::any(), kani::any());
            kani::assume(i >= n || other >= n);
            kani::cover!(i < n && n > 3);
            kani::cover!(i >= n && i == other);
            b.swap(i, other);
            must_panic()
        });
    };
}
//@ fns: VectorBuffer::swap
//@ expect: panic
swap_out!(mp_swap_v, V);
//@ fns: ExternalMemoryBuffer::swap
//@ expect: panic
swap_out!(mp_swap_e, E);

macro_rules! col_swaps {
    ($name:ident, $is_a:literal, $L:ty) => {
        proof_swap!($name, {
            let n = any_len();
            let (mut b, pa, pb) = columns::<$L>(n);
            let (p, size) = column($is_a, pa, pb);
            let (i, other, j, o) = (lt(n), lt(n), lt(n), lt(size));
            let old = rd(p, j * size + o);
            let (old_i, old_other) = (rd(p, i * size + o), rd(p, other * size + o));
            b.swap(i, other);
            kani::cover!(i > other && j == i);
            kani::cover!(i > other && j != i && j != other);
            kani::cover!(i == other && j == i);
            assert!(b.len() == n && b.kani_is_well_formed(), "C06 swapping keeps the number of points");
            let new = rd(p, j * size + o);
            assert!(
                new == if j == i { old_other } else if j == other { old_i } else { old },
                "C06 swapping exchanges exactly the two points"
            );
        });
    };
}
//@ fns: HashMapBuffer::swap
col_swaps!(col_swap_a, true, Q);
//@ fns: HashMapBuffer::swap
col_swaps!(col_swap_b, false, Q);
//@ fns: HashMapBuffer::swap
//@ expect: panic
proof_swap!(mp_swap_h, {
    let n = any_len();
    let (mut b, _, _) = columns::<Q>(n);
    let (i, other): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i >= n || other >= n);
    kani::cover!(i < n && n > 3);
    kani::cover!(i >= n && i == other);
    b.swap(i, other);
    must_panic()
});

// ---- filter

const N: usize = 3;

/// number of matches among the first `end` points
fn matches(keep: &[bool], end: usize) -> usize {
    let mut m = 0;
    let mut k = 0;
    while k < keep.len() {
        if k < end && keep[k] {
            m += 1;
        }
        k += 1;
    }
    m
}
/// byte `o` of the attribute of point `i`
fn abyte<'a, B: BorrowedBuffer<'a>>(b: &B, is_a: bool, i: usize, o: usize) -> u8 {
    let mut d = [0u8; 2];
    if is_a {
        b.get_attribute(&A, i, &mut d);
    } else {
        b.get_attribute(&B, i, &mut d[..1]);
    }
    d[o]
}

macro_rules! filters {
    ($name:ident, $T:ty, $is_a:literal, $keep:expr) => {
        proof!($name, 12, {
            let keep = $keep;
            let n = keep.len();
            let (b, pa, pb) = columns::<Q>(n);
            let (p, size) = column($is_a, pa, pb);
            let f: $T = b.filter(|i| keep[i]);
            let (i, o) = (lt(n), lt(size));
            kani::cover!(i == 2);
            assert!(f.len() == matches(&keep, n), "C06 the filtered buffer has exactly the matching points");
            assert!(*f.point_layout() == Q::layout(), "C06 the filtered buffer has the same layout");
            if keep[i] {
                assert!(
                    abyte(&f, $is_a, matches(&keep, i), o) == rd(p, i * size + o),
                    "C06 matching points keep their order and all their attributes"
                );
            }
        });
    };
}
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, HashMapBuffer::resize
//@ kind: bounded(3 points, one predicate)
filters!(filter_h_a_101, HashMapBuffer, true, [true, false, true]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, HashMapBuffer::resize
//@ kind: bounded(5 points, one predicate)
filters!(filter_h_b_01101, HashMapBuffer, false, [false, true, true, false, true]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, HashMapBuffer::resize
//@ kind: bounded(3 points, one predicate)
//@ tier: thorough
filters!(filter_h_a_111, HashMapBuffer, true, [true, true, true]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, HashMapBuffer::resize
//@ kind: bounded(3 points, one predicate)
filters!(filter_h_b_000, HashMapBuffer, false, [false, false, false]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, VectorBuffer::resize
//@ kind: bounded(3 points, one predicate)
filters!(filter_v_a_101, VectorBuffer, true, [true, false, true]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, VectorBuffer::resize
//@ kind: bounded(5 points, one predicate)
filters!(filter_v_b_01101, VectorBuffer, false, [false, true, true, false, true]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, VectorBuffer::resize
//@ kind: bounded(3 points, one predicate)
//@ tier: thorough
filters!(filter_v_a_111, VectorBuffer, true, [true, true, true]);
//@ fns: HashMapBuffer::filter, HashMapBuffer::filter_into, VectorBuffer::resize
//@ kind: bounded(3 points, one predicate)
//@ tier: thorough
filters!(filter_v_b_000, VectorBuffer, false, [false, false, false]);
macro_rules! filter_nothing {
    ($name:ident, $T:ty) => {
        proof!($name, 6, {
            let b = HashMapBuffer::new_from_layout(Q::layout());
            let f: $T = b.filter(|_| true);
            kani::cover!(true);
            assert!(f.len() == 0, "C06 filtering an empty buffer gives an empty buffer");
        });
    };
}
//@ fns: HashMapBuffer::filter
filter_nothing!(filter_empty_h, HashMapBuffer);
//@ fns: HashMapBuffer::filter
filter_nothing!(filter_empty_v, VectorBuffer);

/// Target buffers of `m` points for `filter_into`
trait Target {
    type Buf: for<'a> BorrowedMutBuffer<'a>;
    fn target(m: usize) -> Self::Buf;
}
impl Target for V {
    type Buf = VectorBuffer;
    fn target(m: usize) -> VectorBuffer {
        V::make::<Q>(any_bytes(m * 4), m)
    }
}
impl Target for E {
    type Buf = ExternalMemoryBuffer<Vec<u8>>;
    fn target(m: usize) -> ExternalMemoryBuffer<Vec<u8>> {
        E::make::<Q>(any_bytes(m * 4), m)
    }
}
struct H;
impl Target for H {
    type Buf = HashMapBuffer;
    fn target(m: usize) -> HashMapBuffer {
        ManuallyDrop::into_inner(columns::<Q>(m).0)
    }
}
macro_rules! filters_into {
    ($name:ident, $T:ty, $is_a:literal, $hint:expr, $n:literal, $keep:expr) => {
        proof!($name, 6, {
            let (b, pa, pb) = columns::<Q>($n);
            let (p, size) = column($is_a, pa, pb);
            let keep: [bool; $n] = $keep;
            let total = matches(&keep, $n);
            // at least as large as needed, otherwise arbitrary
            let m = any_len();
            kani::assume(m >= total);
            let mut f = <$T as Target>::target(m);
            let (i, j, o) = (lt($n), lt(m), lt(size));
            let old = abyte(&f, $is_a, j, o);
            b.filter_into(&mut f, |i| keep[i], if $hint { Some(total) } else { None });
            kani::cover!(m > 5 && j > 4);
            kani::cover!(i == 2 && keep[i] && total == 2);
            assert!(f.len() == m, "C06 filtering into a buffer keeps its length");
            if keep[i] {
                assert!(
                    abyte(&f, $is_a, matches(&keep, i), o) == rd(p, i * size + o),
                    "C06 matching points keep their order and all their attributes"
                );
            }
            if j >= total {
                assert!(abyte(&f, $is_a, j, o) == old, "C06 the remaining points of the target are unchanged");
            }
        });
    };
}
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_v_a_101, V, true, false, 3, [true, false, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_v_b_011_hint, V, false, true, 3, [false, true, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_e_a_011_hint, E, true, true, 3, [false, true, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_e_b_101, E, false, false, 3, [true, false, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_h_a_011, H, true, false, 3, [false, true, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_h_a_011_hint, H, true, true, 3, [false, true, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, one predicate, target of any length)
filters_into!(filter_into_h_b_101, H, false, false, 3, [true, false, true]);
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, any predicate, target of any length)
//@ tier: thorough
filters_into!(filter_into_v_a, V, true, kani::any(), 3, kani::any());
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, any predicate, target of any length)
//@ tier: thorough
filters_into!(filter_into_v_b, V, false, kani::any(), 3, kani::any());
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, any predicate, target of any length)
//@ tier: thorough
filters_into!(filter_into_e_a, E, true, kani::any(), 3, kani::any());
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, any predicate, target of any length)
//@ tier: thorough
filters_into!(filter_into_e_b, E, false, kani::any(), 3, kani::any());
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, any predicate, target of any length)
//@ tier: thorough
filters_into!(filter_into_h_a, H, true, kani::any(), 3, kani::any());
//@ fns: HashMapBuffer::filter_into
//@ kind: bounded(3 points, any predicate, target of any length)
//@ tier: thorough
filters_into!(filter_into_h_b, H, false, kani::any(), 3, kani::any());
//@ fns: HashMapBuffer::filter_into
//@ expect: panic
//@ kind: bounded(3 points, any predicate, target of any length)
proof!(mp_filter_into_small, 6, {
    let (b, _, _) = columns::<Q>(N);
    let keep = [false, true, true];
    let m = any_len0();
    kani::assume(m < matches(&keep, N));
    kani::cover!(m == 1);
    let mut f = V::target(m);
    b.filter_into(&mut f, |i| keep[i], None);
    must_panic()
});
//@ fns: HashMapBuffer::filter_into
//@ expect: panic
//@ kind: bounded(3 points, any predicate)
proof!(mp_filter_into_layout, 6, {
    let (b, _, _) = columns::<Q>(N);
    let keep: [bool; N] = kani::any();
    kani::cover!(keep[0]);
    let mut f = V::make::<P>(any_bytes(N * 3), N);
    b.filter_into(&mut f, |i| keep[i], None);
    must_panic()
});

// ---- transform_attribute

macro_rules! transforms {
    ($name:ident, $b:ident = $make:expr) => {
        proof!($name, 6, {
            let mut $b = $make;
            let key: [u16; N] = kani::any();
            let (j, o) = (lt(N), lt(2));
            let mut old = [0u8; 2];
            $b.get_attribute(&A, j, &mut old);
            let old_b = abyte(&$b, false, j, 0);
            let mut expected = [0u8; 2];
            expected.copy_from_slice(&(u16::from_ne_bytes(old).rotate_left(3) ^ key[j]).to_ne_bytes());
            $b.transform_attribute(&A, |i, v: u16| v.rotate_left(3) ^ key[i]);
            kani::cover!(j == 2 && key[1] != key[2]);
            assert!($b.len() == N, "C06 transforming keeps the number of points");
            assert!(abyte(&$b, true, j, o) == expected[o], "C06 the function is applied once to the attribute of every point");
            assert!(abyte(&$b, false, j, 0) == old_b, "C06 transforming leaves the other attributes unchanged");
        });
    };
}
//@ fns: BorrowedMutBuffer::transform_attribute
//@ kind: bounded(3 points, any content, any keyed function)
transforms!(transform_v, b = V::target(N));
//@ fns: BorrowedMutBuffer::transform_attribute
//@ kind: bounded(3 points, any content, any keyed function)
transforms!(transform_e, b = E::target(N));
//@ fns: BorrowedMutBuffer::transform_attribute
//@ kind: bounded(3 points, any content, any keyed function)
transforms!(transform_h, b = H::target(N));

// ---- sort_by

//@ fns: PointViewMut::sort_by
//@ kind: bounded(3 points, any content)
proof!(sort_v, 6, {
    let mem = any_bytes(N * 4);
    let p = mem.as_ptr();
    let mut old = [[0u8; 4]; N];
    let mut k = 0;
    while k < N {
        old[k] = [rd(p, 4 * k), rd(p, 4 * k + 1), rd(p, 4 * k + 2), rd(p, 4 * k + 3)];
        k += 1;
    }
    let mut b = V::make::<Q>(mem, N);
    b.view_mut::<T4>().sort_by(|x, y| x.b.cmp(&y.b));
    // position of every old point: number of points that precede it in a stable order
    let i = lt(N);
    let mut rank = 0;
    let mut k = 0;
    while k < N {
        if old[k][0] < old[i][0] || (old[k][0] == old[i][0] && k < i) {
            rank += 1;
        }
        k += 1;
    }
    let o = lt(4);
    kani::cover!(rank == 0 && i == 2);
    kani::cover!(old[0][0] == old[2][0] && old[1][0] < old[0][0]);
    assert!(b.len() == N, "C06 sorting keeps the number of points");
    assert!(b.get_point_ref(rank)[o] == old[i][o], "C06 sorting rearranges whole points stably into order");
});

//! C15: contracts of `Alignable::align_to`, `expand_bits_by_3` and `reverse_bits`. Domain: every value for which the
//! mathematical result is representable.
//! Every width and every alignment: ../../verus/c15.py (Verus).
use pasture_core::math::{expand_bits_by_3, reverse_bits, Alignable};

macro_rules! full {
    ($name:ident, $t:ty, $wide:ty) => {
        proof!($name, {
            let (v, a): ($t, $t) = (kani::any(), kani::any());
            let (w, b) = (v as $wide, a as $wide);
            if a == 0 {
                assert!(v.align_to(a) == v, "C15 an alignment of 0 leaves the value alone");
            } else {
                let m: $wide = (w + b - 1) / b * b;
                kani::assume(m <= <$t>::MAX as $wide);
                assert!(v.align_to(a) as $wide == m, "C15 smallest multiple of the alignment not below the value");
                kani::cover!(m > w && b > 9);
                kani::cover!(m == w && m == <$t>::MAX as $wide && b > 1);
            }
        });
    };
}
//@ fns: <u8 as Alignable>::align_to
full!(align_u8, u8, u32);

macro_rules! pow2 {
    ($name:ident, $t:ty, $unwind:literal) => {
        proof!($name, $unwind, {
            let v: $t = kani::any();
            assert!(v.align_to(0) == v, "C15 an alignment of 0 leaves the value alone");
            let k: u32 = kani::any();
            kani::assume(k < <$t>::BITS);
            let mask: $t = ((1 as $t) << k) - 1;
            kani::assume(v <= <$t>::MAX - mask);
            let m = (v + mask) & !mask;
            let mut j = 0;
            while j < <$t>::BITS {
                if j == k {
                    assert!(v.align_to((1 as $t) << j) == m, "C15 smallest multiple of the alignment not below the value");
                }
                j += 1;
            }
            kani::cover!(m > v && k > 3);
        });
    };
}
//@ fns: <u32 as Alignable>::align_to
//@ kind: bounded(alignments that are powers of two, every value)
pow2!(align_pow2_u32, u32, 34);
//@ fns: <u64 as Alignable>::align_to
//@ kind: bounded(alignments that are powers of two, every value)
pow2!(align_pow2_u64, u64, 66);
//@ fns: <usize as Alignable>::align_to
//@ kind: bounded(alignments that are powers of two, every value)
pow2!(align_pow2_usize, usize, 66);

/// general alignments of a few bits
macro_rules! small {
    ($name:ident, $t:ty) => {
        proof!($name, {
            let (hi, lo, a): ($t, $t, $t) = (kani::any(), kani::any(), kani::any());
            kani::assume(a > 0 && a < 32);
            let d: $t = kani::any();
            kani::assume(d < 1024);
            // values around 0 and around the maximum
            let v = if kani::any() { d } else { <$t>::MAX - d };
            let excess = v % a;
            let m = if excess == 0 { Some(v) } else { v.checked_add(a - excess) };
            kani::assume(m.is_some());
            assert!(v.align_to(a) == m.unwrap(), "C15 smallest multiple of the alignment not below the value");
            kani::cover!(v > 4000 && v < m.unwrap());
        });
    };
}
//@ fns: <u32 as Alignable>::align_to
//@ kind: bounded(alignments below 32, values within 1024 of 0 or of the maximum)
small!(align_small_u32, u32);
//@ fns: <u64 as Alignable>::align_to
//@ kind: bounded(alignments below 32, values within 1024 of 0 or of the maximum)
small!(align_small_u64, u64);
//@ fns: <usize as Alignable>::align_to
//@ kind: bounded(alignments below 32, values within 1024 of 0 or of the maximum)
small!(align_small_usize, usize);
//@ fns: <u16 as Alignable>::align_to
//@ kind: bounded(alignments below 32, values within 1024 of 0 or of the maximum)
small!(align_small_u16, u16);
//@ fns: <u128 as Alignable>::align_to
//@ kind: bounded(alignments below 32, values within 1024 of 0 or of the maximum)
small!(align_small_u128, u128);

//@ fns: expand_bits_by_3
proof!(expand, 66, {
    let v: u64 = kani::any();
    let r = expand_bits_by_3(v);
    let mut i = 0;
    while i < 64 {
        let expected = i % 3 == 0 && i / 3 < 21 && (v >> (i / 3)) & 1 == 1;
        assert!(((r >> i) & 1 == 1) == expected, "C15 bit i of the lower 21 bits moves to bit 3i, no other bit is set");
        i += 1;
    }
    kani::cover!(v > 1 << 40 && r > 1 << 60);
});
//@ fns: reverse_bits
proof!(reverse, 66, {
    let v: u64 = kani::any();
    let r = reverse_bits(v);
    let mut i = 0;
    while i < 64 {
        assert!((r >> (63 - i)) & 1 == (v >> i) & 1, "C15 bit i moves to the mirrored position");
        i += 1;
    }
    kani::cover!(v > 1 << 40 && v & 0xff > 3);
});

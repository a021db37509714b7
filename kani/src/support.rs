use pasture_core::containers::*;
use pasture_core::layout::*;
use std::borrow::Cow;
pub use std::mem::ManuallyDrop;

/// Declares a harness that verifies `$body`
#[macro_export]
macro_rules! proof {
    ($name:ident, $body:expr) => {
        proof!($name, 4, $body);
    };
    ($name:ident, $unwind:literal, $body:expr) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::solver(minisat)]
        fn $name() {
            $body
        }
    };
}
/// The same with the solver CaDiCaL
#[macro_export]
macro_rules! proof_cadical {
    ($name:ident, $body:expr) => {
        proof_cadical!($name, 4, $body);
    };
    ($name:ident, $unwind:literal, $body:expr) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::solver(cadical)]
        fn $name() {
            $body
        }
    };
}

/// Last statement of a harness whose call must panic
pub fn must_panic() -> ! {
    panic!("MUST PANIC: the call returned although its precondition is violated")
}

pub const A: PointAttributeDefinition =
    PointAttributeDefinition::custom(Cow::Borrowed("A"), PointAttributeDataType::U16);
pub const B: PointAttributeDefinition =
    PointAttributeDefinition::custom(Cow::Borrowed("Bb"), PointAttributeDataType::U8);
/// Never part of a layout
pub const X: PointAttributeDefinition =
    PointAttributeDefinition::custom(Cow::Borrowed("Xxx"), PointAttributeDataType::U8);
/// Same name as `A`, different type: not part of a layout either
pub const A8: PointAttributeDefinition =
    PointAttributeDefinition::custom(Cow::Borrowed("A"), PointAttributeDataType::U8);

/// `PointLayout` of the given members whose attributes lie in a static array instead of allocated memory, because the
/// verifier does not see through enums in allocated memory. The capacity is 0, so the memory is never freed; no
/// attribute may be added to such a layout
#[macro_export]
macro_rules! static_layout {
    ($n:literal, $members:expr, $size:expr, $align:expr) => {{
        static mut SLOT: Option<[PointAttributeMember; $n]> = None;
        unsafe {
            let slot = &mut *std::ptr::addr_of_mut!(SLOT);
            *slot = Some($members);
            let members = slot.as_mut().unwrap().as_mut_ptr();
            PointLayout::kani_from_parts(
                Vec::from_raw_parts(members, $n, 0),
                std::alloc::Layout::from_size_align($size, $align).unwrap(),
            )
        }
    }};
}

/// A concrete layout with the attributes `A: u16` at `AO` and `B: u8` at `BO`
pub trait Lay {
    const SIZE: usize;
    const AO: usize;
    const BO: usize;
    fn layout() -> PointLayout;
    /// offset, size of the attribute
    fn attr(is_a: bool) -> (usize, usize) {
        if is_a {
            (Self::AO, 2)
        } else {
            (Self::BO, 1)
        }
    }
    fn is_padding(o: usize) -> bool {
        !(o >= Self::AO && o < Self::AO + 2) && o != Self::BO
    }
}
/// Packed: A@0, B@2, size 3
pub struct P;
impl Lay for P {
    const SIZE: usize = 3;
    const AO: usize = 0;
    const BO: usize = 2;
    fn layout() -> PointLayout {
        static_layout!(2, [A.at_offset_in_type(0), B.at_offset_in_type(2)], 3, 1)
    }
}
/// Out of order with padding: A@2, B@0, size 4
pub struct Q;
impl Lay for Q {
    const SIZE: usize = 4;
    const AO: usize = 2;
    const BO: usize = 0;
    fn layout() -> PointLayout {
        static_layout!(2, [A.at_offset_in_type(2), B.at_offset_in_type(0)], 4, 2)
    }
}

/// `n` bytes of arbitrary content
#[cfg(not(feature = "replay"))]
pub fn any_bytes(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    unsafe {
        v.set_len(n);
    }
    v
}
#[cfg(feature = "replay")]
pub fn any_bytes(n: usize) -> Vec<u8> {
    kani::assume(n <= 40);
    let fill: [u8; 40] = kani::any();
    fill[..n].to_vec()
}

/// Largest length of a buffer: far above anything allocatable for the verifier
#[cfg(not(feature = "replay"))]
pub const MAX_LEN: usize = 1 << 40;
/// Small buffers when a counterexample is to be replayed natively
#[cfg(feature = "replay")]
pub const MAX_LEN: usize = 5;

/// Any buffer length except 0
pub fn any_len() -> usize {
    let n: usize = kani::any();
    kani::assume(n > 0 && n < MAX_LEN);
    n
}
/// Any buffer length
pub fn any_len0() -> usize {
    let n: usize = kani::any();
    kani::assume(n < MAX_LEN);
    n
}
/// Any index below `n`
pub fn lt(n: usize) -> usize {
    let i: usize = kani::any();
    kani::assume(i < n);
    i
}
/// Any index below or equal to `n`
pub fn le(n: usize) -> usize {
    let i: usize = kani::any();
    kani::assume(i <= n);
    i
}
/// Any index not below `n` for which ranges `i..i + 2` exist
pub fn ge(n: usize) -> usize {
    let i: usize = kani::any();
    kani::assume(i >= n && i < usize::MAX - 2);
    i
}
/// Any range inside `0..n`
pub fn any_range(n: usize) -> std::ops::Range<usize> {
    let e = le(n);
    let s = le(e);
    s..e
}
/// Any range inside `0..n` of at most `max` points
pub fn any_range_upto(n: usize, max: usize) -> std::ops::Range<usize> {
    let s = le(n);
    let l = le(max);
    kani::assume(l <= n - s);
    s..(s + l)
}

/// Any range of `len` points inside `0..n`
pub fn any_range_of(n: usize, len: usize) -> std::ops::Range<usize> {
    kani::assume(n >= len);
    let s = le(n - len);
    s..(s + len)
}

pub fn attr(is_a: bool) -> PointAttributeDefinition {
    if is_a {
        A
    } else {
        B
    }
}

/// Interleaved buffers over `n * L::SIZE` bytes of memory
pub trait Interleaved {
    type Buf: for<'a> InterleavedBufferMut<'a>;
    fn make<L: Lay>(mem: Vec<u8>, n: usize) -> Self::Buf;
}
/// VectorBuffer
pub struct V;
impl Interleaved for V {
    type Buf = VectorBuffer;
    fn make<L: Lay>(mem: Vec<u8>, n: usize) -> VectorBuffer {
        VectorBuffer::kani_from_parts(L::layout(), mem, n)
    }
}
/// ExternalMemoryBuffer
pub struct E;
impl Interleaved for E {
    type Buf = ExternalMemoryBuffer<Vec<u8>>;
    fn make<L: Lay>(mem: Vec<u8>, n: usize) -> ExternalMemoryBuffer<Vec<u8>> {
        ExternalMemoryBuffer::new(mem, L::layout())
    }
}

/// Reads byte `k` of the memory at `p`
pub fn rd(p: *const u8, k: usize) -> u8 {
    unsafe { *p.add(k) }
}

/// Iterator over two items (the verifier does not see through the iterators of arrays)
pub fn two<T>(x: T, y: T) -> impl Iterator<Item = T> {
    std::iter::once(x).chain(std::iter::once(y))
}

/// HashMapBuffer of `n` points together with the addresses of its columns
/// (never dropped: dropping is not part of any contract)
pub fn columns<L: Lay>(n: usize) -> (ManuallyDrop<HashMapBuffer>, *const u8, *const u8) {
    let a = any_bytes(2 * n);
    let b = any_bytes(n);
    let (pa, pb) = (a.as_ptr(), b.as_ptr());
    (ManuallyDrop::new(HashMapBuffer::kani_from_parts(L::layout(), two((A, a), (B, b)), n)), pa, pb)
}
pub fn column(is_a: bool, pa: *const u8, pb: *const u8) -> (*const u8, usize) {
    if is_a {
        (pa, 2)
    } else {
        (pb, 1)
    }
}

/// Contract of `std::ptr::swap_nonoverlapping` (bytes only)
pub unsafe fn swap_contract<T>(x: *mut T, y: *mut T, count: usize) {
    let (x, y) = (x as *mut u8, y as *mut u8);
    let n = count * std::mem::size_of::<T>();
    assert!(n == 0 || x != y, "swap_nonoverlapping: the regions overlap");
    let mut k = 0;
    while k < n {
        let t = *x.add(k);
        *x.add(k) = *y.add(k);
        *y.add(k) = t;
        k += 1;
    }
}
/// `proof!` with `swap_nonoverlapping` replaced by its contract
#[macro_export]
macro_rules! proof_swap {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::solver(minisat)]
        #[kani::stub(std::ptr::swap_nonoverlapping, crate::support::swap_contract)]
        fn $name() {
            $body
        }
    };
}

/// Point type with layout `Q` and alignment 1, so that any memory is suitably aligned
#[repr(C)]
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct T4 {
    pub b: u8,
    pub pad: u8,
    pub a: [u8; 2],
}
unsafe impl bytemuck::Zeroable for T4 {}
unsafe impl bytemuck::Pod for T4 {}
impl PointType for T4 {
    fn layout() -> PointLayout {
        Q::layout()
    }
}
/// Attribute type with datatype `U16` and alignment 1
#[repr(transparent)]
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct W(pub [u8; 2]);
unsafe impl bytemuck::Zeroable for W {}
unsafe impl bytemuck::Pod for W {}
impl PrimitiveType for W {
    fn data_type() -> PointAttributeDataType {
        PointAttributeDataType::U16
    }
}
/// Stand-in for `Backtrace::capture` (reads the environment)
pub fn no_backtrace() -> std::backtrace::Backtrace {
    std::backtrace::Backtrace::disabled()
}

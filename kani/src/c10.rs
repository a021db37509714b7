//! C10: contracts of the conversion functions. The oracle is Rust's own numeric cast; source and target lie unaligned
//! inside larger memory whose other bytes must stay unchanged.
use crate::support::*;
use pasture_core::kani_support::kani_watch_conversions as watch;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use std::borrow::Cow;
use PointAttributeDataType as D;

/// equal bit for bit; every NaN is equal to every other NaN
macro_rules! same {
    (f32, $a:expr, $b:expr) => {{ let (a, b): (f32, f32) = ($a, $b); a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }};
    (f64, $a:expr, $b:expr) => {{ let (a, b): (f64, f64) = ($a, $b); a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }};
    ($t:ident, $a:expr, $b:expr) => {{ let (a, b): ($t, $t) = ($a, $b); a == b }};
}
/// converts `$n` components from offset 1 of the source to offset 1 of the target
macro_rules! pair {
    ($n:literal, $f:ident, $t:ident, $df:ident, $dt:ident) => {{
        const N: usize = $n;
        const SF: usize = std::mem::size_of::<$f>();
        const ST: usize = std::mem::size_of::<$t>();
        let function = get_generic_converter(D::$df, D::$dt);
        assert!(function.is_some(), "C10 supported pair");
        let source: [u8; N * SF + 2] = kani::any();
        let mut target: [u8; N * ST + 2] = kani::any();
        let (old, old_source) = (target, source);
        unsafe { (function.unwrap())(&source[1..1 + N * SF], &mut target[1..1 + N * ST]) };
        assert!(target[0] == old[0] && target[N * ST + 1] == old[N * ST + 1], "C10 bytes beside the target are unchanged");
        let o = lt(N * SF + 2);
        assert!(source[o] == old_source[o], "C10 the source is unchanged");
        let mut c = 0;
        while c < N {
            let v = unsafe { (source.as_ptr().add(1 + c * SF) as *const $f).read_unaligned() };
            let r = unsafe { (target.as_ptr().add(1 + c * ST) as *const $t).read_unaligned() };
            assert!(same!($t, r, v as $t), "C10 the converted value is the numeric cast of the source value");
            c += 1;
        }
        kani::cover!(source[1] > 3 && old[1] > 3);
    }};
}
/// all conversions from one type
macro_rules! conversions {
    ($n:literal, $f:ident $df:ident => $($t:ident $dt:ident),*) => {{
        watch(&[$((D::$df, D::$dt)),*]);
        $(pair!($n, $f, $t, $df, $dt);)*
    }};
}
//@ fns: get_generic_converter, convert_scalar_using_as<u8; i8>, convert_scalar_using_as<u8; u16>, convert_scalar_using_as<u8; i16>, convert_scalar_using_as<u8; u32>, convert_scalar_using_as<u8; i32>
proof!(from_u8_a, 12, { conversions!(1, u8 U8 => i8 I8, u16 U16, i16 I16, u32 U32, i32 I32) });
//@ fns: get_generic_converter, convert_scalar_using_as<u8; u64>, convert_scalar_using_as<u8; i64>, convert_scalar_using_as<u8; f32>, convert_scalar_using_as<u8; f64>
proof!(from_u8_b, 12, { conversions!(1, u8 U8 => u64 U64, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<i8; u8>, convert_scalar_using_as<i8; u16>, convert_scalar_using_as<i8; i16>, convert_scalar_using_as<i8; u32>, convert_scalar_using_as<i8; i32>
proof!(from_i8_a, 12, { conversions!(1, i8 I8 => u8 U8, u16 U16, i16 I16, u32 U32, i32 I32) });
//@ fns: get_generic_converter, convert_scalar_using_as<i8; u64>, convert_scalar_using_as<i8; i64>, convert_scalar_using_as<i8; f32>, convert_scalar_using_as<i8; f64>
proof!(from_i8_b, 12, { conversions!(1, i8 I8 => u64 U64, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<u16; u8>, convert_scalar_using_as<u16; i8>, convert_scalar_using_as<u16; i16>, convert_scalar_using_as<u16; u32>, convert_scalar_using_as<u16; i32>
proof!(from_u16_a, 12, { conversions!(1, u16 U16 => u8 U8, i8 I8, i16 I16, u32 U32, i32 I32) });
//@ fns: get_generic_converter, convert_scalar_using_as<u16; u64>, convert_scalar_using_as<u16; i64>, convert_scalar_using_as<u16; f32>, convert_scalar_using_as<u16; f64>
proof!(from_u16_b, 12, { conversions!(1, u16 U16 => u64 U64, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<i16; u8>, convert_scalar_using_as<i16; i8>, convert_scalar_using_as<i16; u16>, convert_scalar_using_as<i16; u32>, convert_scalar_using_as<i16; i32>
proof!(from_i16_a, 12, { conversions!(1, i16 I16 => u8 U8, i8 I8, u16 U16, u32 U32, i32 I32) });
//@ fns: get_generic_converter, convert_scalar_using_as<i16; u64>, convert_scalar_using_as<i16; i64>, convert_scalar_using_as<i16; f32>, convert_scalar_using_as<i16; f64>
proof!(from_i16_b, 12, { conversions!(1, i16 I16 => u64 U64, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<u32; u8>, convert_scalar_using_as<u32; i8>, convert_scalar_using_as<u32; u16>, convert_scalar_using_as<u32; i16>, convert_scalar_using_as<u32; i32>
proof!(from_u32_a, 12, { conversions!(1, u32 U32 => u8 U8, i8 I8, u16 U16, i16 I16, i32 I32) });
//@ fns: get_generic_converter, convert_scalar_using_as<u32; u64>, convert_scalar_using_as<u32; i64>, convert_scalar_using_as<u32; f32>, convert_scalar_using_as<u32; f64>
proof!(from_u32_b, 12, { conversions!(1, u32 U32 => u64 U64, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<i32; u8>, convert_scalar_using_as<i32; i8>, convert_scalar_using_as<i32; u16>, convert_scalar_using_as<i32; i16>, convert_scalar_using_as<i32; u32>
proof!(from_i32_a, 12, { conversions!(1, i32 I32 => u8 U8, i8 I8, u16 U16, i16 I16, u32 U32) });
//@ fns: get_generic_converter, convert_scalar_using_as<i32; u64>, convert_scalar_using_as<i32; i64>, convert_scalar_using_as<i32; f32>, convert_scalar_using_as<i32; f64>
proof!(from_i32_b, 12, { conversions!(1, i32 I32 => u64 U64, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<u64; u8>, convert_scalar_using_as<u64; i8>, convert_scalar_using_as<u64; u16>, convert_scalar_using_as<u64; i16>, convert_scalar_using_as<u64; u32>
proof!(from_u64_a, 12, { conversions!(1, u64 U64 => u8 U8, i8 I8, u16 U16, i16 I16, u32 U32) });
//@ fns: get_generic_converter, convert_scalar_using_as<u64; i32>, convert_scalar_using_as<u64; i64>, convert_scalar_using_as<u64; f32>, convert_scalar_using_as<u64; f64>
proof!(from_u64_b, 12, { conversions!(1, u64 U64 => i32 I32, i64 I64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<i64; u8>, convert_scalar_using_as<i64; i8>, convert_scalar_using_as<i64; u16>, convert_scalar_using_as<i64; i16>, convert_scalar_using_as<i64; u32>
proof!(from_i64_a, 12, { conversions!(1, i64 I64 => u8 U8, i8 I8, u16 U16, i16 I16, u32 U32) });
//@ fns: get_generic_converter, convert_scalar_using_as<i64; i32>, convert_scalar_using_as<i64; u64>, convert_scalar_using_as<i64; f32>, convert_scalar_using_as<i64; f64>
proof!(from_i64_b, 12, { conversions!(1, i64 I64 => i32 I32, u64 U64, f32 F32, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<f32; u8>, convert_scalar_using_as<f32; i8>, convert_scalar_using_as<f32; u16>, convert_scalar_using_as<f32; i16>, convert_scalar_using_as<f32; u32>
proof!(from_f32_a, 12, { conversions!(1, f32 F32 => u8 U8, i8 I8, u16 U16, i16 I16, u32 U32) });
//@ fns: get_generic_converter, convert_scalar_using_as<f32; i32>, convert_scalar_using_as<f32; u64>, convert_scalar_using_as<f32; i64>, convert_scalar_using_as<f32; f64>
proof!(from_f32_b, 12, { conversions!(1, f32 F32 => i32 I32, u64 U64, i64 I64, f64 F64) });
//@ fns: get_generic_converter, convert_scalar_using_as<f64; u8>, convert_scalar_using_as<f64; i8>, convert_scalar_using_as<f64; u16>, convert_scalar_using_as<f64; i16>, convert_scalar_using_as<f64; u32>
proof!(from_f64_a, 12, { conversions!(1, f64 F64 => u8 U8, i8 I8, u16 U16, i16 I16, u32 U32) });
//@ fns: get_generic_converter, convert_scalar_using_as<f64; i32>, convert_scalar_using_as<f64; u64>, convert_scalar_using_as<f64; i64>, convert_scalar_using_as<f64; f32>
proof!(from_f64_b, 12, { conversions!(1, f64 F64 => i32 I32, u64 U64, i64 I64, f32 F32) });
//@ fns: get_generic_converter, convert_vec3_using_as<u8; u16>, convert_vec3_using_as<u8; i32>
proof!(vec3_from_u8_a, 12, { conversions!(3, u8 Vec3u8 => u16 Vec3u16, i32 Vec3i32) });
//@ fns: get_generic_converter, convert_vec3_using_as<u8; f32>, convert_vec3_using_as<u8; f64>
proof!(vec3_from_u8_b, 12, { conversions!(3, u8 Vec3u8 => f32 Vec3f32, f64 Vec3f64) });
//@ fns: get_generic_converter, convert_vec3_using_as<u16; u8>, convert_vec3_using_as<u16; i32>
proof!(vec3_from_u16_a, 12, { conversions!(3, u16 Vec3u16 => u8 Vec3u8, i32 Vec3i32) });
//@ fns: get_generic_converter, convert_vec3_using_as<u16; f32>, convert_vec3_using_as<u16; f64>
proof!(vec3_from_u16_b, 12, { conversions!(3, u16 Vec3u16 => f32 Vec3f32, f64 Vec3f64) });
//@ fns: get_generic_converter, convert_vec3_using_as<i32; u8>, convert_vec3_using_as<i32; u16>
proof!(vec3_from_i32_a, 12, { conversions!(3, i32 Vec3i32 => u8 Vec3u8, u16 Vec3u16) });
//@ fns: get_generic_converter, convert_vec3_using_as<i32; f32>, convert_vec3_using_as<i32; f64>
proof!(vec3_from_i32_b, 12, { conversions!(3, i32 Vec3i32 => f32 Vec3f32, f64 Vec3f64) });
//@ fns: get_generic_converter, convert_vec3_using_as<f32; u8>, convert_vec3_using_as<f32; u16>
proof!(vec3_from_f32_a, 12, { conversions!(3, f32 Vec3f32 => u8 Vec3u8, u16 Vec3u16) });
//@ fns: get_generic_converter, convert_vec3_using_as<f32; i32>, convert_vec3_using_as<f32; f64>
proof!(vec3_from_f32_b, 12, { conversions!(3, f32 Vec3f32 => i32 Vec3i32, f64 Vec3f64) });
//@ fns: get_generic_converter, convert_vec3_using_as<f64; u8>, convert_vec3_using_as<f64; u16>
proof!(vec3_from_f64_a, 12, { conversions!(3, f64 Vec3f64 => u8 Vec3u8, u16 Vec3u16) });
//@ fns: get_generic_converter, convert_vec3_using_as<f64; i32>, convert_vec3_using_as<f64; f32>
proof!(vec3_from_f64_b, 12, { conversions!(3, f64 Vec3f64 => i32 Vec3i32, f32 Vec3f32) });
fn any_type() -> (u8, D) {
    let k: u8 = kani::any();
    kani::assume(k < 17);
    (k, match k {
        0 => D::U8, 1 => D::I8, 2 => D::U16, 3 => D::I16, 4 => D::U32, 5 => D::I32, 6 => D::U64, 7 => D::I64,
        8 => D::F32, 9 => D::F64, 10 => D::Vec3u8, 11 => D::Vec3u16, 12 => D::Vec3f32, 13 => D::Vec3i32,
        14 => D::Vec3f64, 15 => D::Vec4u8, _ => D::ByteArray(4),
    })
}
/// pairs without a conversion: reported by a panic (or by `None`), never by a conversion function
//@ fns: get_generic_converter
//@ expect: panic
proof!(mp_unsupported, 12, {
    let ((a, da), (b, db)) = (any_type(), any_type());
    let scalar = |k: u8| k < 10;
    let vec3 = |k: u8| k >= 10 && k < 15;
    kani::assume(a != b && !(scalar(a) && scalar(b)) && !(vec3(a) && vec3(b)));
    kani::cover!(scalar(a) && vec3(b));
    kani::cover!(a == 16 || b == 15);
    watch(&[(da, db)]);
    if get_generic_converter(da, db).is_some() {
        must_panic();
    }
});
const NAMES: [&str; 2] = ["A", "B"];
fn named(name: usize, d: D) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(NAMES[name]), d)
}
//@ fns: get_converter_for_attributes
proof!(equal_types, 12, {
    let (_, d) = any_type();
    assert!(get_converter_for_attributes(&named(0, d), &named(0, d)).is_none(), "C10 equal types need no conversion");
    kani::cover!(d == D::Vec4u8);
    kani::cover!(d == D::ByteArray(4));
});
//@ fns: get_converter_for_attributes
proof!(different_types, 12, {
    watch(&[(D::I16, D::F32)]);
    let f = get_converter_for_attributes(&named(0, D::I16), &named(0, D::F32)).unwrap();
    let v: i16 = kani::any();
    let mut out = [0u8; 4];
    unsafe { f(&v.to_ne_bytes(), &mut out) };
    assert!(f32::from_ne_bytes(out) == v as f32, "C10 the converter of the attributes' types is used");
    kani::cover!(v < -3);
});
//@ fns: get_converter_for_attributes
//@ expect: panic
proof!(mp_other_name, 12, {
    watch(&[(D::I16, D::F32)]);
    kani::cover!(true);
    let f = get_converter_for_attributes(&named(0, D::I16), &named(1, D::F32));
    must_panic();
});
//@ fns: convert_unit
proof!(unit, 12, {
    let n = any_len0();
    let (s, mut t) = (any_bytes(n), any_bytes(n));
    kani::assume(n > 0);
    let o = lt(n);
    unsafe { convert_unit(&s, &mut t) };
    assert!(t[o] == s[o], "C10 convert_unit copies every byte");
    kani::cover!(n > 30);
});
//@ fns: convert_unit
//@ expect: panic
proof!(mp_unit, 12, {
    let (n, m) = (any_len0(), any_len0());
    kani::assume(n != m);
    let (s, mut t) = (any_bytes(n), any_bytes(m));
    kani::cover!(n > m);
    unsafe { convert_unit(&s, &mut t) };
    must_panic();
});

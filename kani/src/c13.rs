//! C13: axis-aligned boxes. Loop-free functions over the full domain of the coordinate type (no NaN); the arithmetic of
//! as_cubic and contains_approx is compared with exact integer arithmetic on a grid where f64 is exact, and with the
//! defining formulas everywhere.
use pasture_core::math::*;
use pasture_core::nalgebra::{Point3, Vector3};

trait Num: pasture_core::nalgebra::Scalar + pasture_core::nalgebra::ClosedSub + PartialOrd + Copy {
    fn any() -> Self;
    fn same(self, other: Self) -> bool {
        self == other
    }
}
impl Num for f64 {
    fn any() -> f64 {
        let v: f64 = kani::any();
        kani::assume(!v.is_nan());
        v
    }
}
impl Num for f32 {
    fn any() -> f32 {
        let v: f32 = kani::any();
        kani::assume(!v.is_nan());
        v
    }
}
impl Num for i32 {
    fn any() -> i32 {
        kani::any()
    }
}
impl Num for u8 {
    fn any() -> u8 {
        kani::any()
    }
}
fn point<T: Num>() -> Point3<T> {
    Point3::new(T::any(), T::any(), T::any())
}
fn valid<T: Num>(min: &Point3<T>, max: &Point3<T>) -> bool {
    min.x <= max.x && min.y <= max.y && min.z <= max.z
}
/// any box with min <= max
fn any_box<T: Num>() -> AABB<T> {
    let (min, max) = (point::<T>(), point::<T>());
    kani::assume(valid(&min, &max));
    AABB::from_min_max_unchecked(min, max)
}
fn axis() -> usize {
    let a: usize = kani::any();
    kani::assume(a < 3);
    a
}

fn checked<T: Num>() {
    let (min, max) = (point::<T>(), point::<T>());
    kani::assume(valid(&min, &max));
    kani::cover!(min.x < max.x && min.y == max.y);
    let (b, u) = (AABB::from_min_max(min, max), AABB::from_min_max_unchecked(min, max));
    assert!(*b.min() == min && *b.max() == max, "C13 the checked constructor keeps the corners");
    assert!(*u.min() == min && *u.max() == max, "C13 the unchecked constructor keeps the corners");
}
//@ fns: AABB::from_min_max, AABB::from_min_max_unchecked, AABB::min, AABB::max
proof!(constructors_f64, { checked::<f64>() });
//@ fns: AABB::from_min_max, AABB::from_min_max_unchecked
proof!(constructors_i32, { checked::<i32>() });
fn rejected<T: Num>() {
    let (min, max) = (point::<T>(), point::<T>());
    kani::assume(!valid(&min, &max));
    kani::cover!(min.x <= max.x && min.y <= max.y);
    kani::cover!(min.z <= max.z && min.y <= max.y);
    let b = AABB::from_min_max(min, max);
    crate::support::must_panic();
}
//@ fns: AABB::from_min_max
//@ expect: panic
proof!(mp_inverted_f64, { rejected::<f64>() });
//@ fns: AABB::from_min_max
//@ expect: panic
proof!(mp_inverted_u8, { rejected::<u8>() });

fn contains<T: Num>() {
    let (b, p) = (any_box::<T>(), point::<T>());
    let inside = (0..3).all(|a| b.min()[a] <= p[a] && p[a] <= b.max()[a]);
    kani::cover!(inside && b.min().x < p.x);
    kani::cover!(!inside && b.min().x < p.x && b.min().y < p.y && p.y < b.max().y);
    assert!(b.contains(&p) == inside, "C13 contains is the inclusive interval test on every axis");
}
//@ fns: AABB::contains
proof!(contains_f64, { contains::<f64>() });
//@ fns: AABB::contains
proof!(contains_f32, { contains::<f32>() });
//@ fns: AABB::contains
proof!(contains_i32, { contains::<i32>() });

fn intersects<T: Num>() {
    let (a, b) = (any_box::<T>(), any_box::<T>());
    // the intervals meet: the larger minimum is not above the smaller maximum
    let meet = (0..3).all(|i| {
        let lo = if a.min()[i] > b.min()[i] { a.min()[i] } else { b.min()[i] };
        let hi = if a.max()[i] < b.max()[i] { a.max()[i] } else { b.max()[i] };
        lo <= hi
    });
    kani::cover!(meet && a.max().x == b.min().x);
    kani::cover!(!meet && a.max().x > b.min().x && a.max().y > b.min().y);
    assert!(a.intersects(&b) == meet, "C13 boxes intersect exactly when their intervals meet on every axis");
    assert!(b.intersects(&a) == meet, "C13 intersects is symmetric");
}
//@ fns: AABB::intersects
proof!(intersects_f64, { intersects::<f64>() });
//@ fns: AABB::intersects
proof!(intersects_i32, { intersects::<i32>() });

fn union<T: Num>() {
    let (a, b) = (any_box::<T>(), any_box::<T>());
    let u = AABB::union(&a, &b);
    let i = axis();
    kani::cover!(a.min()[i] < b.min()[i] && a.max()[i] < b.max()[i] && i == 2);
    assert!(u.min()[i] <= a.min()[i] && u.min()[i] <= b.min()[i] && u.max()[i] >= a.max()[i] && u.max()[i] >= b.max()[i],
        "C13 the union contains both boxes");
    assert!((u.min()[i] == a.min()[i] || u.min()[i] == b.min()[i]) && (u.max()[i] == a.max()[i] || u.max()[i] == b.max()[i]),
        "C13 the union is the smallest such box");
}
//@ fns: AABB::union
proof!(union_f64, { union::<f64>() });
//@ fns: AABB::union
proof!(union_f32, { union::<f32>() });
//@ fns: AABB::union
proof!(union_i32, { union::<i32>() });

fn extend<T: Num>() {
    let (b, p) = (any_box::<T>(), point::<T>());
    let e = AABB::extend_with_point(&b, &p);
    let i = axis();
    kani::cover!(p[i] < b.min()[i] && i == 1);
    kani::cover!(p[i] > b.max()[i] && i == 2);
    assert!(e.min()[i] <= b.min()[i] && e.max()[i] >= b.max()[i] && e.min()[i] <= p[i] && e.max()[i] >= p[i],
        "C13 the extended box contains the box and the point");
    assert!((e.min()[i] == b.min()[i] || e.min()[i] == p[i]) && (e.max()[i] == b.max()[i] || e.max()[i] == p[i]),
        "C13 the extended box is the smallest such box");
}
//@ fns: AABB::extend_with_point
proof!(extend_f64, { extend::<f64>() });
//@ fns: AABB::extend_with_point
proof!(extend_i32, { extend::<i32>() });

/// finite coordinates whose sums do not overflow
fn finite64() -> AABB<f64> {
    let b = any_box::<f64>();
    for i in 0..3 {
        kani::assume(b.min()[i] >= -1e300 && b.max()[i] <= 1e300);
    }
    b
}
fn finite32() -> AABB<f32> {
    let b = any_box::<f32>();
    for i in 0..3 {
        kani::assume(b.min()[i] >= -1e30 && b.max()[i] <= 1e30);
    }
    b
}
//@ fns: AABB::extent
//@ tier: thorough
proof_cadical!(extent_f64, {
    let b = finite64();
    let e = b.extent();
    kani::cover!(e.x > 0.5);
    assert!(e.x == b.max().x - b.min().x, "C13 the extent is maximum - minimum on every axis");
    assert!(e.y == b.max().y - b.min().y, "C13 the extent is maximum - minimum on every axis");
    assert!(e.z == b.max().z - b.min().z, "C13 the extent is maximum - minimum on every axis");
});
//@ fns: AABB::extent
proof!(extent_i32, {
    let b = any_box::<i32>();
    for i in 0..3 {
        kani::assume(b.max()[i].checked_sub(b.min()[i]).is_some());
    }
    let (e, i) = (b.extent(), axis());
    kani::cover!(e[i] > 5);
    assert!(e[i] as i64 == b.max()[i] as i64 - b.min()[i] as i64, "C13 the extent is maximum - minimum on every axis");
});
macro_rules! center {
    ($box:expr, $a:ident) => {{
        let b = $box;
        let c = b.center();
        kani::cover!(b.min().$a < c.$a && c.$a < b.max().$a);
        assert!(b.min().$a <= c.$a && c.$a <= b.max().$a, "C13 the center lies inside the box");
    }};
}
//@ fns: AABB::center
proof!(center_f64_x, { center!(finite64(), x) });
//@ fns: AABB::center
proof!(center_f64_y, { center!(finite64(), y) });
//@ fns: AABB::center
proof!(center_f64_z, { center!(finite64(), z) });
//@ fns: AABB::center
proof!(center_f32, { center!(finite32(), x); center!(finite32(), y); center!(finite32(), z) });
/// integer corners: every operation on them is exact in the float type
fn grid() -> ([i8; 3], [i8; 3]) {
    let (lo, hi): ([i8; 3], [i8; 3]) = (kani::any(), kani::any());
    kani::assume((0..3).all(|i| lo[i] <= hi[i] && lo[i] >= -32 && hi[i] < 32));
    (lo, hi)
}
macro_rules! grid_box {
    ($t:ty, $lo:expr, $hi:expr) => {
        AABB::<$t>::from_min_max_unchecked(
            Point3::new($lo[0] as $t, $lo[1] as $t, $lo[2] as $t),
            Point3::new($hi[0] as $t, $hi[1] as $t, $hi[2] as $t),
        )
    };
}
macro_rules! on_grid {
    ($t:ty, $i:literal) => {{
        let (lo, hi) = grid();
        let b = grid_box!($t, lo, hi);
        let (l, h) = (lo[$i] as i32, hi[$i] as i32);
        let extent = |i: usize| hi[i] as i32 - lo[i] as i32;
        kani::cover!(h - l == 7 && l < -3 && extent(($i + 1) % 3) == 9);
        assert!(b.extent()[$i] == (h - l) as $t, "C13 the extent is maximum - minimum on every axis");
        assert!(b.center()[$i] * 2.0 == (l + h) as $t, "C13 the center is the middle of the corners");
        let side = extent(0).max(extent(1)).max(extent(2));
        let q = b.as_cubic();
        assert!(q.max()[$i] * 2.0 == (l + h + side) as $t && q.min()[$i] * 2.0 == (l + h - side) as $t,
            "C13 the cubic box has the same center and the longest side on every axis");
    }};
}
//@ fns: AABB::center, AABB::as_cubic, AABB::extent
//@ kind: bounded(integer coordinates from -32 to 31)
proof_cadical!(cubic_f64_x, { on_grid!(f64, 0) });
//@ fns: AABB::center, AABB::as_cubic, AABB::extent
//@ kind: bounded(integer coordinates from -32 to 31)
proof_cadical!(cubic_f64_y, { on_grid!(f64, 1) });
//@ fns: AABB::center, AABB::as_cubic, AABB::extent
//@ kind: bounded(integer coordinates from -32 to 31)
proof_cadical!(cubic_f64_z, { on_grid!(f64, 2) });
//@ fns: AABB::center, AABB::as_cubic, AABB::extent
//@ kind: bounded(integer coordinates from -32 to 31)
proof_cadical!(cubic_f32_x, { on_grid!(f32, 0) });
//@ fns: AABB::center, AABB::as_cubic
//@ kind: bounded(integer coordinates from -32 to 31)
//@ tier: thorough
proof_cadical!(cubic_f32_y, { on_grid!(f32, 1) });
//@ fns: AABB::center, AABB::as_cubic
//@ kind: bounded(integer coordinates from -32 to 31)
//@ tier: thorough
proof_cadical!(cubic_f32_z, { on_grid!(f32, 2) });
//@ fns: AABB::contains_approx
//@ kind: bounded(integer coordinates from -32 to 31)
proof!(contains_approx_grid, {
    let (lo, hi) = grid();
    let b = grid_box!(f64, lo, hi);
    let (p, e): ([i8; 3], i8) = (kani::any(), kani::any());
    kani::assume(e >= 0);
    let (t, q) = (e as i32, |i: usize| p[i] as i32);
    let inside = (0..3).all(|i| q(i) >= lo[i] as i32 - t && q(i) <= hi[i] as i32 + t);
    kani::cover!(inside && p[1] < lo[1]);
    kani::cover!(!inside && p[1] < lo[1] && p[0] > lo[0] && p[0] < hi[0]);
    assert!(b.contains_approx(&Point3::new(p[0] as f64, p[1] as f64, p[2] as f64), e as f64) == inside,
        "C13 contains_approx is the interval test widened by the tolerance");
});
//@ fns: AABB::contains_approx
proof!(contains_approx_exact, {
    let (b, p) = (any_box::<f64>(), point::<f64>());
    for i in 0..3 {
        kani::assume(b.min()[i].is_finite() && b.max()[i].is_finite() && p[i].is_finite());
    }
    kani::cover!(b.contains(&p) && p.x > b.min().x);
    kani::cover!(!b.contains(&p));
    assert!(b.contains_approx(&p, 0.0) == b.contains(&p), "C13 contains_approx without tolerance is contains");
});

fn from_points(n: usize) {
    let all = [point::<f64>(), point::<f64>(), point::<f64>()];
    let points = &all[..n];
    let b: AABB<f64> = points.iter().copied().collect();
    let i = axis();
    kani::cover!(points[0][i] < points[n - 1][i] || n == 1);
    assert!(points.iter().all(|p| b.min()[i] <= p[i] && p[i] <= b.max()[i]), "C13 the collected box contains every point");
    assert!(points.iter().any(|p| p[i] == b.min()[i]) && points.iter().any(|p| p[i] == b.max()[i]),
        "C13 the collected box is the smallest such box");
}
//@ fns: AABB::from_iter
//@ kind: bounded(1 point)
proof!(collect_1, { from_points(1) });
//@ fns: AABB::from_iter
//@ kind: bounded(3 points)
proof!(collect_3, { from_points(3) });

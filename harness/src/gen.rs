//! Workload generators (integer coordinates) and conversion to the vector backends.
use crate::exact::{gcd, hull, sub, P};
use crate::rng::Rng;
use vector_traits::num_traits::FromPrimitive;
use vector_traits::{GenericVector2, GenericVector3};

pub fn sc<S: FromPrimitive>(x: f64) -> S {
    S::from_f64(x).unwrap()
}
thread_local! {
    /// 0, or the state of the generator of signs of zeros
    static ZEROS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// In a quarter of the cases the coordinates that are zero have any sign: nothing may depend on it
pub fn zero_mode(seed: u64) -> bool {
    let m = crate::rng::mix(seed ^ 0x2E50_5EED);
    ZEROS.with(|z| z.set(if m & 3 == 0 { m | 1 } else { 0 }));
    m & 3 == 0
}
/// for cases that compare bit patterns or texts
pub fn plain_zeros() {
    ZEROS.with(|z| z.set(0));
}
fn nz(x: f64) -> f64 {
    if x != 0.0 {
        return x;
    }
    ZEROS.with(|z| match z.get() {
        0 => x,
        s => {
            let m = crate::rng::mix(s);
            z.set(m | 1);
            if m & 2 == 0 {
                -0.0
            } else {
                0.0
            }
        }
    })
}
pub fn v2<T: GenericVector2>(p: P, k: f64) -> T {
    T::new_2d(sc(nz(p.0 as f64 * k)), sc(nz(p.1 as f64 * k)))
}
pub fn vf2<T: GenericVector2>(x: f64, y: f64) -> T {
    T::new_2d(sc(nz(x)), sc(nz(y)))
}
pub fn f2<T: GenericVector2>(p: T) -> (f64, f64) {
    (p.x().into(), p.y().into())
}
pub fn f3<T: GenericVector3>(p: T) -> (f64, f64, f64) {
    (p.x().into(), p.y().into(), p.z().into())
}
pub fn vf3<T: GenericVector3>(x: f64, y: f64, z: f64) -> T {
    T::new_3d(sc(nz(x)), sc(nz(y)), sc(nz(z)))
}
/// back to the integer grid (exact), None if not on the grid
pub fn grid<T: GenericVector2>(p: T, k: f64) -> Option<P> {
    let (x, y) = f2(p);
    let (x, y) = (x / k, y / k);
    if x.fract() == 0.0 && y.fract() == 0.0 && x.abs() < 1e15 && y.abs() < 1e15 {
        Some((x as i64, y as i64))
    } else {
        None
    }
}
pub fn grids<T: GenericVector2>(v: &[T], k: f64) -> Option<Vec<P>> {
    v.iter().map(|p| grid(*p, k)).collect()
}

/// the two scalar widths have different exactly-representable ranges
pub trait Backend2: GenericVector2 + 'static {
    const NAME: &'static str;
    const F32: bool;
}
pub trait Backend3: GenericVector3 + 'static {
    const NAME: &'static str;
    const F32: bool;
}
macro_rules! b2 {
    ($t:ty,$n:expr,$f:expr) => {
        impl Backend2 for $t {
            const NAME: &'static str = $n;
            const F32: bool = $f;
        }
    };
}
macro_rules! b3 {
    ($t:ty,$n:expr,$f:expr) => {
        impl Backend3 for $t {
            const NAME: &'static str = $n;
            const F32: bool = $f;
        }
    };
}
pub type GVec2 = vector_traits::glam::Vec2;
pub type GVec2A = vector_traits::Vec2A;
pub type GDVec2 = vector_traits::glam::DVec2;
pub type CVec2F = vector_traits::cgmath::Vector2<f32>;
pub type CVec2D = vector_traits::cgmath::Vector2<f64>;
pub type GVec3 = vector_traits::glam::Vec3;
pub type GVec3A = vector_traits::glam::Vec3A;
pub type GDVec3 = vector_traits::glam::DVec3;
pub type CVec3F = vector_traits::cgmath::Vector3<f32>;
pub type CVec3D = vector_traits::cgmath::Vector3<f64>;
b2!(GVec2, "glam::Vec2", true);
b2!(GVec2A, "glam::Vec2A", true);
b2!(GDVec2, "glam::DVec2", false);
b2!(CVec2F, "cgmath::Vector2<f32>", true);
b2!(CVec2D, "cgmath::Vector2<f64>", false);
b3!(GVec3, "glam::Vec3", true);
b3!(GVec3A, "glam::Vec3A", true);
b3!(GDVec3, "glam::DVec3", false);
b3!(CVec3F, "cgmath::Vector3<f32>", true);
b3!(CVec3D, "cgmath::Vector3<f64>", false);

#[macro_export]
macro_rules! dispatch2 {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 5 {
            #[cfg(not(feature = "plain_alloc"))]
            0 => $f::<$crate::gen::GVec2>($($a),*),
            // fewer instances in the sanitizer builds
            #[cfg(feature = "plain_alloc")]
            3 => $f::<$crate::gen::GDVec2>($($a),*),
            1 => $f::<$crate::gen::GDVec2>($($a),*),
            #[cfg(not(feature = "plain_alloc"))]
            2 => $f::<$crate::gen::CVec2F>($($a),*),
            #[cfg(not(feature = "plain_alloc"))]
            3 => $f::<$crate::gen::CVec2D>($($a),*),
            _ => $f::<$crate::gen::GVec2A>($($a),*),
        }
    };
}
#[macro_export]
macro_rules! dispatch3 {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 5 {
            #[cfg(not(feature = "plain_alloc"))]
            0 => $f::<$crate::gen::GVec3>($($a),*),
            // fewer instances in the sanitizer builds
            #[cfg(feature = "plain_alloc")]
            3 => $f::<$crate::gen::GDVec3>($($a),*),
            1 => $f::<$crate::gen::GDVec3>($($a),*),
            #[cfg(not(feature = "plain_alloc"))]
            2 => $f::<$crate::gen::CVec3F>($($a),*),
            #[cfg(not(feature = "plain_alloc"))]
            3 => $f::<$crate::gen::CVec3D>($($a),*),
            _ => $f::<$crate::gen::GVec3A>($($a),*),
        }
    };
}
pub fn is_f32(i: usize) -> bool {
    !matches!(i % 5, 1 | 3)
}

/// Point clouds of many shapes on the integer grid, |coordinate| <= r.
pub fn cloud(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    let mut v: Vec<P> = Vec::with_capacity(n);
    let kind = rng.us(12);
    match kind {
        0 | 1 => {
            for _ in 0..n {
                v.push((rng.range(-r, r), rng.range(-r, r)));
            }
        }
        2 | 3 => {
            // tiny grid: many duplicates and collinear triples
            let s = rng.range(1, 4).min(r);
            let (ox, oy) = (rng.range(-r + s, r - s), rng.range(-r + s, r - s));
            for _ in 0..n {
                v.push((ox + rng.range(-s, s), oy + rng.range(-s, s)));
            }
        }
        4 => {
            // boundary of a rectangle
            let w = rng.range(1, r);
            let h = rng.range(1, r);
            for _ in 0..n {
                v.push(match rng.us(4) {
                    0 => (rng.range(-w, w), -h),
                    1 => (rng.range(-w, w), h),
                    2 => (-w, rng.range(-h, h)),
                    _ => (w, rng.range(-h, h)),
                });
            }
        }
        5 => {
            // near a circle
            for _ in 0..n {
                let a = rng.fr(0.0, std::f64::consts::TAU);
                v.push(((a.cos() * r as f64) as i64, (a.sin() * r as f64) as i64));
            }
        }
        6 => {
            // convex position on a parabola, random orientation
            let m = (r as f64).sqrt() as i64;
            let (fx, sw) = (rng.chance(1, 2), rng.chance(1, 2));
            for _ in 0..n {
                let x = rng.range(-m, m);
                let mut p = (x, x * x);
                if fx {
                    p.1 = -p.1;
                }
                if sw {
                    p = (p.1, p.0);
                }
                v.push(p);
            }
        }
        7 => {
            // collinear along a random direction, with optional outliers
            let k = (n as i64).max(2);
            let dx = rng.range(-(r / k).max(1), (r / k).max(1)).clamp(-r, r);
            let dy = rng.range(-(r / k).max(1), (r / k).max(1)).clamp(-r, r);
            let out = rng.us(3);
            for i in 0..n {
                if i < out {
                    v.push((rng.range(-r, r), rng.range(-r, r)));
                } else {
                    let t = rng.range(-k / 2, k / 2);
                    v.push(((dx * t).clamp(-r, r), (dy * t).clamp(-r, r)));
                }
            }
        }
        8 => {
            // two clusters
            let s = (r / 8).max(1);
            let c1 = (rng.range(-r + s, r - s), rng.range(-r + s, r - s));
            let c2 = (rng.range(-r + s, r - s), rng.range(-r + s, r - s));
            for _ in 0..n {
                let c = if rng.chance(1, 2) { c1 } else { c2 };
                v.push((c.0 + rng.range(-s, s), c.1 + rng.range(-s, s)));
            }
        }
        9 => {
            // vertical / horizontal strips
            for _ in 0..n {
                let x = *rng.pick(&[-r, -r / 2, 0, r / 2, r]);
                v.push((x, rng.range(-r, r)));
            }
            if rng.chance(1, 2) {
                for p in v.iter_mut() {
                    *p = (p.1, p.0);
                }
            }
        }
        10 => {
            // a cross / diagonal lattice
            for _ in 0..n {
                let t = rng.range(-r, r);
                v.push(match rng.us(4) {
                    0 => (t, 0),
                    1 => (0, t),
                    2 => (t, t),
                    _ => (t, -t),
                });
            }
        }
        _ => {
            // random walk
            let s = (r / 16).max(1);
            let mut p = (0i64, 0i64);
            for _ in 0..n {
                p = ((p.0 + rng.range(-s, s)).clamp(-r, r), (p.1 + rng.range(-s, s)).clamp(-r, r));
                v.push(p);
            }
        }
    }
    // sprinkle duplicates
    if n > 2 && rng.chance(1, 4) {
        let k = rng.ur(1, (n / 3).max(1));
        for _ in 0..k {
            let (i, j) = (rng.us(n), rng.us(n));
            v[i] = v[j];
        }
    }
    match rng.us(6) {
        0 => v.sort_unstable(),
        1 => {
            v.sort_unstable();
            v.reverse()
        }
        _ => {}
    }
    v
}

pub fn size(rng: &mut Rng) -> usize {
    match rng.us(10) {
        0 => rng.ur(3, 4),
        1..=4 => rng.ur(3, 9),
        5..=7 => rng.ur(8, 24),
        8 => rng.ur(20, 80),
        _ => rng.ur(60, 300),
    }
}

/// a polyline: vertices with plausible connectivity (random walk, zig-zag, loop, cloud order)
pub fn polyline(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    let mut v = match rng.us(6) {
        0 => {
            let mut v = cloud(rng, n, r);
            rng.shuffle(&mut v);
            v
        }
        1 => {
            // monotone zig-zag
            let s = (2 * r / (n as i64).max(1)).max(1);
            let mut x = -r;
            (0..n)
                .map(|_| {
                    x = (x + rng.range(0, s)).min(r);
                    (x, rng.range(-r / 8 - 1, r / 8 + 1))
                })
                .collect()
        }
        2 => {
            // noisy circle walk (star-shaped)
            (0..n)
                .map(|i| {
                    let a = i as f64 / n as f64 * std::f64::consts::TAU;
                    let q = rng.fr(0.5, 1.0) * r as f64;
                    ((a.cos() * q) as i64, (a.sin() * q) as i64)
                })
                .collect()
        }
        3 => {
            // axis-parallel staircase with runs of collinear points
            let mut p = (0i64, 0i64);
            let s = (r / 8).max(1);
            (0..n)
                .map(|_| {
                    if rng.chance(1, 2) {
                        p.0 = (p.0 + rng.range(-s, s)).clamp(-r, r);
                    } else {
                        p.1 = (p.1 + rng.range(-s, s)).clamp(-r, r);
                    }
                    p
                })
                .collect()
        }
        _ => {
            let s = (r / rng.range(2, 20)).max(1);
            let mut p = (rng.range(-r, r), rng.range(-r, r));
            (0..n)
                .map(|_| {
                    p = ((p.0 + rng.range(-s, s)).clamp(-r, r), (p.1 + rng.range(-s, s)).clamp(-r, r));
                    p
                })
                .collect()
        }
    };
    if v.len() > 3 && rng.chance(1, 3) {
        let f = v[0];
        let l = v.len();
        v[l - 1] = f;
    }
    v
}

pub fn eps<T: Backend2>() -> f64 {
    if T::F32 {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}
pub fn eps3<T: Backend3>() -> f64 {
    if T::F32 {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}
pub fn dist(a: (f64, f64), b: (f64, f64)) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
/// distance from p to the closed segment a-b (f64 reference)
pub fn seg_dist(a: (f64, f64), b: (f64, f64), p: (f64, f64)) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    if l == 0.0 {
        return dist(a, p);
    }
    let t = ((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l;
    if t <= 0.0 {
        dist(a, p)
    } else if t >= 1.0 {
        dist(b, p)
    } else {
        ((p.0 - a.0) * dy - (p.1 - a.1) * dx).abs() / l.sqrt()
    }
}
pub fn pf(p: P) -> (f64, f64) {
    (p.0 as f64, p.1 as f64)
}

/// a pair of segments in many relations: crossing, touching, collinear, parallel, degenerate
pub fn seg_pair(rng: &mut Rng, r: i64) -> (P, P, P, P) {
    let rp = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let cl = |p: P| (p.0.clamp(-r, r), p.1.clamp(-r, r));
    let a = rp(rng);
    let mut b = rp(rng);
    if rng.chance(1, 6) {
        if rng.chance(1, 2) {
            b.0 = a.0
        } else {
            b.1 = a.1
        }
    }
    let d = sub(b, a);
    let g = (gcd(d.0 as i128, d.1 as i128) as i64).max(1);
    let st = (d.0 / g, d.1 / g);
    let on = |rng: &mut Rng| {
        let t = rng.range(0, g);
        (a.0 + st.0 * t, a.1 + st.1 * t)
    };
    match rng.us(12) {
        0 | 1 => (a, b, rp(rng), rp(rng)),
        2 => {
            // shared end point
            let s = *rng.pick(&[a, b]);
            let q = rp(rng);
            (a, b, s, q)
        }
        3 => {
            // T junction
            let s = on(rng);
            let q = rp(rng);
            (a, b, s, q)
        }
        4 => {
            // collinear, any relation; choose a short primitive step so it stays in range
            let st = (rng.range(-3, 3), rng.range(-3, 3));
            let o = (rng.range(-r / 2, r / 2), rng.range(-r / 2, r / 2));
            let k = (r / 8).clamp(1, 12);
            let mut f = || {
                let t = rng.range(-k, k);
                cl((o.0 + st.0 * t, o.1 + st.1 * t))
            };
            (f(), f(), f(), f())
        }
        5 => {
            // parallel, shifted by little
            let s = (rng.range(-2, 2), rng.range(-2, 2));
            let c = cl((a.0 + s.0, a.1 + s.1));
            let e = cl((b.0 + s.0, b.1 + s.1));
            if rng.chance(1, 2) {
                (a, b, c, e)
            } else {
                (a, b, e, c)
            }
        }
        6 => {
            // crossing in a grid point
            let s = on(rng);
            let v = (rng.range(-r / 4 - 1, r / 4 + 1), rng.range(-r / 4 - 1, r / 4 + 1));
            (a, b, cl((s.0 + v.0, s.1 + v.1)), cl((s.0 - v.0, s.1 - v.1)))
        }
        7 => {
            // almost touching: ends one grid step from the line
            let s = on(rng);
            let q = rp(rng);
            (a, b, cl((s.0 + rng.range(-1, 1), s.1 + rng.range(-1, 1))), q)
        }
        8 => {
            // a degenerate segment
            let s = match rng.us(4) {
                0 => on(rng),
                1 => a,
                2 => rp(rng),
                _ => {
                    let s = on(rng);
                    cl((s.0 + rng.range(-1, 1), s.1 + rng.range(-1, 1)))
                }
            };
            if rng.chance(1, 8) {
                (s, s, s, s)
            } else if rng.chance(1, 2) {
                (s, s, a, b)
            } else {
                (a, b, s, s)
            }
        }
        9 => {
            // same segment, or reversed
            if rng.chance(1, 2) {
                (a, b, a, b)
            } else {
                (a, b, b, a)
            }
        }
        10 => {
            // axis-parallel
            let h = |rng: &mut Rng| {
                let p = rp(rng);
                let l = rng.range(-r, r);
                if rng.chance(1, 2) {
                    (p, (l, p.1))
                } else {
                    (p, (p.0, l))
                }
            };
            let (p, q) = h(rng);
            let (s, t) = h(rng);
            (p, q, s, t)
        }
        _ => {
            let o = rp(rng);
            let k = rng.range(1, 4).min(r);
            let mut f = || cl((o.0 + rng.range(-k, k), o.1 + rng.range(-k, k)));
            (f(), f(), f(), f())
        }
    }
}

/// a strictly convex counter clockwise lattice polygon of many vertices, coordinates up to r
pub fn convex_polygon(rng: &mut Rng, r: i64) -> Vec<P> {
    let mut m = match r {
        0..=8 => 1,
        9..=30 => 2,
        31..=100 => 4,
        101..=300 => 8,
        _ => rng.range(6, 24),
    };
    loop {
        let keep = *rng.pick(&[1u64, 2, 3, 4]);
        let mut d: Vec<P> = Vec::new();
        for x in -m..=m {
            for y in -m..=m {
                if gcd(x as i128, y as i128) == 1 && rng.chance(keep, 4) {
                    let f = if r > 300 && rng.chance(1, 8) { rng.range(1, 9) } else { 1 };
                    d.push((x * f, y * f));
                }
            }
        }
        let s = d.iter().fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
        if s != (0, 0) {
            d.push((-s.0, -s.1));
        }
        // by angle; parallel ones are merged
        let half = |v: &P| !(v.1 > 0 || (v.1 == 0 && v.0 > 0));
        d.sort_by(|a, b| half(a).cmp(&half(b)).then_with(|| (b.0 as i128 * a.1 as i128).cmp(&(a.0 as i128 * b.1 as i128))));
        let mut v: Vec<P> = Vec::new();
        let mut p = (0i64, 0i64);
        for e in d {
            v.push(p);
            p = (p.0 + e.0, p.1 + e.1);
        }
        let h = hull(&v);
        if h.len() < 3 {
            continue;
        }
        let (x0, x1) = (h.iter().map(|p| p.0).min().unwrap(), h.iter().map(|p| p.0).max().unwrap());
        let (y0, y1) = (h.iter().map(|p| p.1).min().unwrap(), h.iter().map(|p| p.1).max().unwrap());
        if x1 - x0 > 2 * r || y1 - y0 > 2 * r {
            m = (m - 1).max(1);
            continue;
        }
        let o = (rng.range(-r - x0, r - x1), rng.range(-r - y0, r - y1));
        return h.into_iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect();
    }
}

/// scales for segments: the products of two coordinates on the integer grid are not taken for zero,
/// that is, they are larger than the library's absolute epsilon
pub fn seg_scale(rng: &mut crate::rng::Rng, o: &mut crate::core::Obs, f32s: bool) -> f64 {
    if rng.chance(3, 4) {
        return *rng.pick(&[1.0, 1.0, 0.0625, 8.0, 1048576.0]);
    }
    o.n("very_small_or_large_coordinates");
    let (lo, hi) = if f32s { (-11, 24) } else { (-25, 100) };
    2f64.powi(if rng.chance(1, 4) { lo } else { rng.range(lo, hi) } as i32)
}

//! C17 bounding boxes, C18 affine transformation, C19 planes and 2D/3D copies, C22 views and
//! approximate equality, C26 distance functions
use crate::core::*;
use crate::gen::*;
use crate::p_simp::{cross3, d2 as dist2_3, dot3, sub3, P3};
use crate::rng::*;
use crate::{dispatch2, dispatch3};
use linestring::linestring_2d::{self, Aabb2, Line2, LineString2, SimpleAffine};
use linestring::linestring_3d::{self, Aabb3, Line3, LineString3, Plane};
use linestring::LinestringError;
use vector_traits::approx::{AbsDiffEq, UlpsEq};
use vector_traits::num_traits::real::Real;
use vector_traits::{GenericVector2, HasXY};

type F3 = [f64; 3];
type Model = Option<(F3, F3)>;

fn grow(m: &mut Model, p: F3) {
    match m {
        None => *m = Some((p, p)),
        Some((lo, hi)) => {
            for i in 0..3 {
                lo[i] = lo[i].min(p[i]);
                hi[i] = hi[i].max(p[i]);
            }
        }
    }
}
fn inside(m: &Model, p: F3) -> bool {
    match m {
        None => false,
        Some((lo, hi)) => (0..3).all(|i| lo[i] <= p[i] && p[i] <= hi[i]),
    }
}
/// just outside of, or just within, a limit of a box of arbitrary floats
fn near_limit(m: &Model, p: F3, k: f64) -> bool {
    k <= 0.0
        && m.map(|(lo, hi)| {
            // (four ulps or the epsilon of the type, and some more)
            let e = if k == 0.0 { f32::EPSILON as f64 } else { f64::EPSILON };
            (0..3).any(|i| [lo[i], hi[i]].iter().any(|l| p[i] != *l && (p[i] - l).abs() <= 6.0 * e * l.abs() + 2.0 * e))
        })
        .unwrap_or(false)
}
/// coordinates: a multiple of k
fn gp(rng: &mut Rng, r: i64, k: f64, three: bool) -> F3 {
    let mut c = || {
        if k > 0.0 {
            rng.range(-r, r) as f64 * k
        } else {
            // any float (that is also a f32 for k 0)
            let v = rng.fr(-1.0, 1.0) * 10f64.powi(rng.range(-3, 6) as i32);
            if k == 0.0 { v as f32 as f64 } else { v }
        }
    };
    [c(), c(), if three { c() } else { 0.0 }]
}
/// a point to add; for boxes of arbitrary floats also one that moves the limits by a few ulps
fn growing(rng: &mut Rng, o: &mut Obs, m: &Model, r: i64, k: f64, three: bool) -> F3 {
    let mut p = gp(rng, r, k, three);
    let Some((lo, hi)) = m else { return p };
    if k > 0.0 || rng.chance(1, 2) {
        return p;
    }
    o.n("limits_moved_by_a_few_ulps");
    for i in 0..(if three { 3 } else { 2 }) {
        let x = if rng.chance(1, 2) { lo[i] } else { hi[i] };
        let n = rng.range(-6, 6);
        p[i] = match rng.us(4) {
            0 => (lo[i] + hi[i]) / 2.0,
            1 => x,
            _ if x == 0.0 => n as f64 * 1e-20,
            _ if k == 0.0 => f32::from_bits(((x as f32).to_bits() as i64 + n) as u32) as f64,
            _ => f64::from_bits((x.to_bits() as i64 + n) as u64),
        };
        if k == 0.0 {
            p[i] = p[i] as f32 as f64;
        }
    }
    p
}
/// a probe near the limits of the box
fn probe(rng: &mut Rng, m: &Model, r: i64, k: f64, three: bool) -> F3 {
    let mut p = gp(rng, r, k, three);
    if let Some((lo, hi)) = m {
        for i in 0..(if three { 3 } else { 2 }) {
            if k <= 0.0 {
                let e = if k == 0.0 { f32::EPSILON as f64 } else { f64::EPSILON };
                let mut d = 0.01 * (hi[i] - lo[i]).max(lo[i].abs()).max(hi[i].abs()).max(0.01);
                if rng.chance(1, 2) {
                    // just outside, but by more than the four ulps which don't count
                    d = d * 1000.0 * e * 10f64.powf(rng.fr(0.0, 5.0));
                }
                let v = match rng.us(8) {
                    0 => lo[i],
                    1 => hi[i],
                    2 => lo[i] - d,
                    3 => hi[i] + d,
                    4 | 5 | 6 => lo[i] + (hi[i] - lo[i]) * rng.fr(0.0, 1.0),
                    _ => p[i],
                };
                p[i] = if k == 0.0 { v as f32 as f64 } else { v };
                continue;
            }
            p[i] = match rng.us(8) {
                0 => lo[i],
                1 => hi[i],
                2 => lo[i] - k,
                3 => hi[i] + k,
                4 | 5 => {
                    let n = ((hi[i] - lo[i]) / k) as i64;
                    lo[i] + rng.range(0, n) as f64 * k
                }
                6 => (lo[i] + hi[i]) / 2.0,
                _ => p[i],
            };
        }
    }
    p
}
fn op_map(kind: usize, k: f64, p: F3) -> F3 {
    match kind {
        0 => p,
        1 => [-p[0], -p[1], -p[2]],
        2 => [p[1], p[0], p[2]],
        3 => [p[0] * 2.0, p[1] * 2.0, p[2] * 2.0],
        4 => [p[0] + 3.0 * k, p[1] - 2.0 * k, p[2] + k],
        5 => [-p[0], p[1], p[2]],
        6 => [p[0], p[1], -p[2]],
        7 => [p[0].abs(), p[1].abs(), p[2].abs()],
        _ => [k, -k, 2.0 * k],
    }
}
fn opt3(m: Option<F3>) -> String {
    format!("{m:?}")
}

macro_rules! aabb_case {
    ($name:ident, $bound:ident, $aabb:ident, $three:expr, $mk:ident, $un:ident, $low:ident, $high:ident, $line:ident, $extra:ident, $pre:expr) => {
        fn $name<T: $bound>(rng: &mut Rng, o: &mut Obs) {
            let k = if rng.chance(1, 6) {
                o.n("very_small_or_large_coordinates");
                2f64.powi(if T::F32 { rng.range(-21, 100) } else { rng.range(-50, 900) } as i32)
            } else {
                *rng.pick(&[1.0, 0.0625, 8.0, if T::F32 { 0.0 } else { -1.0 }])
            };
            let kk: f64 = if k > 0.0 { k } else { 1.0 };
            if k <= 0.0 {
                o.n("boxes_of_arbitrary_floats");
            }
            let rt = |x: f64| if T::F32 { x as f32 as f64 } else { x };
            let r = *rng.pick(&[2i64, 10, 1000]);
            let mut m: Model = None;
            let mut h = Fnv::new();
            let n0 = rng.us(5);
            let pts: Vec<F3> = (0..n0).map(|_| gp(rng, r, k, $three)).collect();
            let tp = |v: &[F3]| v.iter().map(|p| $mk::<T>(*p)).collect::<Vec<T>>();
            o.input(|| format!("{} backend {} with_points {:?}", $pre, T::NAME, pts));
            let Some(mut b) = o.call("Aabb::with_points", || $aabb::<T>::with_points(&tp(&pts))) else { return };
            pts.iter().for_each(|p| grow(&mut m, *p));
            pts.iter().for_each(|p| h.u(p[0].to_bits() ^ p[1].to_bits().rotate_left(17) ^ p[2].to_bits().rotate_left(31)));
            let steps = rng.us(5);
            for step in 0..=steps {
                if step > 0 {
                    match rng.us(5) {
                        0 => {
                            let p = growing(rng, o, &m, r, k, $three);
                            o.input(|| format!("update_with_point {p:?}"));
                            h.u(p[0].to_bits());
                            grow(&mut m, p);
                            if o.call("update_with_point", || b.update_with_point($mk::<T>(p))).is_none() {
                                return;
                            }
                        }
                        1 => {
                            let c = rng.us(4);
                            let v: Vec<F3> = (0..c).map(|_| growing(rng, o, &m, r, k, $three)).collect();
                            o.input(|| format!("update_with_points {v:?}"));
                            v.iter().for_each(|p| grow(&mut m, *p));
                            if o.call("update_with_points", || b.update_with_points(&tp(&v))).is_none() {
                                return;
                            }
                        }
                        2 => {
                            let c = rng.us(4);
                            let mut v: Vec<F3> = (0..c).map(|_| growing(rng, o, &m, r, k, $three)).collect();
                            if let (true, Some((lo, hi))) = (rng.chance(1, 3), m) {
                                // the other box reaches from somewhere inside
                                v.push([lo[0], hi[1], lo[2]]);
                                v.push([hi[0], lo[1], hi[2]]);
                            }
                            o.input(|| format!("update_with_aabb of {v:?}"));
                            v.iter().for_each(|p| grow(&mut m, *p));
                            if o.call("update_with_aabb", || b.update_with_aabb($aabb::<T>::with_points(&tp(&v)))).is_none() {
                                return;
                            }
                        }
                        _ => {
                            let kind = rng.us(9);
                            o.input(|| format!("apply map {kind}"));
                            if let Some((lo, hi)) = m {
                                m = None;
                                let (a, c) = (op_map(kind, kk, lo).map(rt), op_map(kind, kk, hi).map(rt));
                                let z = |mut p: F3| {
                                    if !$three {
                                        p[2] = 0.0;
                                    }
                                    p
                                };
                                grow(&mut m, z(a));
                                grow(&mut m, z(c));
                                if matches!(kind, 1 | 5 | 6) {
                                    o.n("order_reversing_apply");
                                }
                            }
                            if o.call("Aabb::apply", || b.apply(&|p: T| $mk::<T>(op_map(kind, kk, $un(p))))).is_none() {
                                return;
                            }
                        }
                    }
                }
                if m.is_none() {
                    o.n("empty_box");
                } else if m.map(|(a, b)| a == b).unwrap_or(false) {
                    o.n("point_box");
                } else {
                    o.n("boxes");
                }
                let lo = b.$low().map(|p| $un(p));
                let hi = b.$high().map(|p| $un(p));
                let ok = lo == m.map(|m| m.0) && hi == m.map(|m| m.1);
                if !o.check(ok, concat!($pre, ":limits"), || format!("{}: limits {} {} instead of {:?}", $pre, opt3(lo), opt3(hi), m)) {
                    return;
                }
                let e = b.extents().map(|(a, b, c)| ($un(a), $un(b), $un(c)));
                let want = m.map(|(a, b)| (a, b, [b[0] - a[0], b[1] - a[1], b[2] - a[2]].map(rt)));
                let _ = o.check(e == want, concat!($pre, ":extents"), || format!("{}: extents {:?} instead of {:?}", $pre, e, want));
                let c = b.center().map(|p| $un(p));
                let want = m.map(|(a, b)| [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0, (a[2] + b[2]) / 2.0]);
                let ok = if k > 0.0 {
                    c == want
                } else {
                    let close = |x: F3, w: F3, m: (F3, F3)| (0..3).all(|i| (x[i] - w[i]).abs() <= 4.0 * (if T::F32 { f32::EPSILON as f64 } else { f64::EPSILON }) * m.0[i].abs().max(m.1[i].abs()));
                    match (c, want, m) {
                        (Some(x), Some(w), Some(m)) => close(x, w, m),
                        (None, None, None) => true,
                        _ => false,
                    }
                };
                let _ = o.check(ok, concat!($pre, ":center"), || format!("{}: center {:?} instead of {:?}", $pre, c, want));
                for _ in 0..4 {
                    let (p, q) = (probe(rng, &m, r, k, $three), probe(rng, &m, r, k, $three));
                    if near_limit(&m, p, k) || near_limit(&m, q, k) {
                        continue;
                    }
                    let (ip, iq) = (inside(&m, p), inside(&m, q));
                    let g = b.contains_point_inclusive($mk::<T>(p));
                    let _ = o.check(g == ip, concat!($pre, ":contains_point"), || format!("{}: contains_point_inclusive({p:?}) is {g} for {m:?}", $pre));
                    let g = b.contains_line_inclusive(&$line::<T>::new($mk::<T>(p), $mk::<T>(q)));
                    let _ = o.check(g == (ip && iq), concat!($pre, ":contains_line"), || format!("{}: contains_line_inclusive({p:?} {q:?}) is {g} for {m:?}", $pre));
                    let c = $aabb::<T>::with_points(&[$mk::<T>(p), $mk::<T>(q)]);
                    let g = b.contains_aabb_inclusive(&c);
                    let _ = o.check(g == (ip && iq), concat!($pre, ":contains_aabb"), || format!("{}: contains_aabb_inclusive({p:?} {q:?}) is {g} for {m:?}", $pre));
                    if m.is_some() {
                        o.n(if ip { "contained_points" } else { "other_points" });
                    }
                }
                let none = $aabb::<T>::default();
                let _ = o.check(!b.contains_aabb_inclusive(&none) && !none.contains_aabb_inclusive(&b), concat!($pre, ":contains_aabb"), || format!("{}: an empty box contains, or is contained in, {m:?}", $pre));
                $extra(o, &b, &m);
            }
            if m.is_some() {
                o.nontrivial(h.0 ^ k.to_bits());
            }
        }
    };
}
fn mk2<T: Backend2>(p: F3) -> T {
    vf2(p[0], p[1])
}
fn un2<T: Backend2>(p: T) -> F3 {
    let q = f2(p);
    // +0.0: a negative zero is the same limit
    [q.0 + 0.0, q.1 + 0.0, 0.0]
}
fn mk3<T: Backend3>(p: F3) -> T {
    vf3(p[0], p[1], p[2])
}
fn un3<T: Backend3>(p: T) -> F3 {
    let q = f3(p);
    [q.0 + 0.0, q.1 + 0.0, q.2 + 0.0]
}
fn extra2<T: Backend2>(o: &mut Obs, b: &Aabb2<T>, m: &Model) {
    let mm = b.min_max().map(|(a, b)| (un2(a), un2(b)));
    let _ = o.check(mm == *m, "aabb2:min_max", || format!("min_max {mm:?} instead of {m:?}"));
    // the outline: counter-clockwise, closed, starting with the lower limit
    let want: Option<Vec<F3>> = m.map(|(a, b)| vec![a, [b[0], a[1], 0.0], b, [a[0], b[1], 0.0], a]);
    let h = b.convex_hull::<T>().map(|v| v.into_iter().map(un2).collect::<Vec<_>>());
    let _ = o.check(h == want, "aabb2:convex_hull", || format!("convex_hull {h:?} instead of {want:?}"));
    let v: Vec<T> = (*b).into();
    let v: Vec<F3> = v.into_iter().map(un2).collect();
    let _ = o.check(v == want.clone().unwrap_or_default(), "aabb2:outline", || format!("outline {v:?} instead of {want:?}"));
    if let Some(w) = m {
        let pts: Vec<T> = vec![mk2(w.1), mk2(w.0)];
        let c: Aabb2<T> = pts.iter().into();
        let _ = o.check(c == *b && c != Aabb2::<T>::default(), "aabb2:eq", || format!("a box of the same two limits differs {m:?}"));
        // a box with one other limit is a different one
        for i in 0..4 {
            let mut x = *w;
            let d = 0.01 * (0..2).map(|i| x.0[i].abs().max(x.1[i].abs())).fold(1.0, f64::max);
            if i < 2 {
                x.0[i] -= d;
            } else {
                x.1[i - 2] += d;
            }
            let c = Aabb2::<T>::with_points(&[mk2(x.0), mk2(x.1)]);
            let _ = o.check(c != *b && *b != c, "aabb2:ne", || format!("boxes {w:?} and {x:?} are equal"));
        }
        if w.0 == w.1 {
            let n = Aabb2::<T>::new(mk2(w.0));
            let _ = o.check(n == *b, "aabb2:new", || format!("new() differs {m:?}"));
        }
    } else {
        let _ = o.check(*b == Aabb2::<T>::default(), "aabb2:eq", || "two empty boxes differ".into());
    }
}
fn extra3<T: Backend3>(o: &mut Obs, b: &Aabb3<T>, m: &Model) {
    if let Some(w) = m {
        let c: Aabb3<T> = [mk3::<T>(w.0), mk3::<T>(w.1)].into();
        let s = |x: f64| sc::<T::Scalar>(x);
        let d: Aabb3<T> = [s(w.0[0]), s(w.0[1]), s(w.0[2]), s(w.1[0]), s(w.1[1]), s(w.1[2])].into();
        let _ = o.check(c == *b && d == *b, "aabb3:eq", || format!("a box of the same two limits differs {m:?}"));
        for i in 0..6 {
            let mut x = *w;
            let d = 0.01 * (0..3).map(|i| x.0[i].abs().max(x.1[i].abs())).fold(1.0, f64::max);
            if i < 3 {
                x.0[i] -= d;
            } else {
                x.1[i - 3] += d;
            }
            let c = Aabb3::<T>::with_points(&[mk3(x.0), mk3(x.1)]);
            let _ = o.check(c != *b && *b != c && *b != Aabb3::<T>::default(), "aabb3:ne", || format!("boxes {w:?} and {x:?} are equal"));
        }
    } else {
        let _ = o.check(*b == Aabb3::<T>::default(), "aabb3:eq", || "two empty boxes differ".into());
    }
}
aabb_case!(aabb2_case, Backend2, Aabb2, false, mk2, un2, low, high, Line2, extra2, "aabb2");
aabb_case!(aabb3_case, Backend3, Aabb3, true, mk3, un3, get_low, get_high, Line3, extra3, "aabb3");

pub fn case_c17(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    if rng.chance(1, 2) {
        dispatch2!(b, aabb2_case(rng, o));
    } else {
        dispatch3!(b, aabb3_case(rng, o));
    }
}

// ------------------------------------------------------------------ C18
fn affine_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let e = eps::<T>();
    let gen_box = |rng: &mut Rng| {
        let r = *rng.pick(&[1.0, 10.0, 1000.0, 1e5, 1e9]);
        let w = *rng.pick(&[0.0, 0.3, 1.0, 7.0, 640.0, 1e4, 1e9]) * rng.fr(0.5, 1.5);
        let h = *rng.pick(&[0.0, 0.3, 1.0, 7.0, 640.0, 1e4, 1e9]) * rng.fr(0.5, 1.5);
        let c = (rng.fr(-r, r), rng.fr(-r, r));
        let rt = |x: f64| if T::F32 { x as f32 as f64 } else { x };
        ([rt(c.0 - w / 2.0), rt(c.1 - h / 2.0)], [rt(c.0 + w / 2.0), rt(c.1 + h / 2.0)])
    };
    let (a, b) = (gen_box(rng), gen_box(rng));
    let none = rng.us(12);
    let mk = |b: &([f64; 2], [f64; 2])| Aabb2::<T>::with_points(&[vf2(b.0[0], b.0[1]), vf2(b.1[0], b.1[1])]);
    o.input(|| format!("backend {} source {:?} destination {:?} empty {}", T::NAME, a, b, none));
    let (ab, bb) = (if none == 0 || none == 2 { Aabb2::<T>::default() } else { mk(&a) }, if none == 1 || none == 2 { Aabb2::<T>::default() } else { mk(&b) });
    let Some(t) = o.call("SimpleAffine::new", || SimpleAffine::<T>::new(&ab, &bb)) else { return };
    if none <= 2 {
        o.n("empty_boxes");
        let _ = o.check(matches!(t, Err(LinestringError::AabbError(_))), "affine:empty", || "no AabbError for an empty box".into());
        return;
    }
    let t = match t {
        Ok(t) => t,
        Err(x) => {
            o.fail("affine:err", format!("{x:?} for finite boxes {a:?} {b:?}"));
            return;
        }
    };
    let mut h = Fnv::new();
    for x in [a.0, a.1, b.0, b.1] {
        h.u(x[0].to_bits());
        h.u(x[1].to_bits());
    }
    o.nontrivial(h.0);
    let size = |b: &([f64; 2], [f64; 2]), i: usize| b.1[i] - b.0[i];
    let ctr = |b: &([f64; 2], [f64; 2]), i: usize| (b.1[i] + b.0[i]) / 2.0;
    let sa = size(&a, 0).max(size(&a, 1)).max(1.0);
    let sb = size(&b, 0).max(1.0).min(size(&b, 1).max(1.0));
    let s = sb / sa;
    let big = |b: &([f64; 2], [f64; 2])| b.0.iter().chain(b.1.iter()).fold(0.0f64, |m, x| m.max(x.abs()));
    let fits = size(&b, 0) >= 1.0 && size(&b, 1) >= 1.0;
    o.n(if fits { "destination_large_enough" } else { "tiny_destination" });
    o.n(if size(&a, 0).max(size(&a, 1)) >= 1.0 { "source_fills_destination" } else { "tiny_source" });
    let mut probes: Vec<[f64; 2]> = vec![a.0, a.1, [a.0[0], a.1[1]], [ctr(&a, 0), ctr(&a, 1)]];
    for _ in 0..3 {
        probes.push([rng.fr(-2.0, 2.0) * (sa + big(&a)), rng.fr(-2.0, 2.0) * (sa + big(&a))]);
    }
    let mut arr = Vec::new();
    for (i, p) in probes.iter().enumerate() {
        let p = if T::F32 { [p[0] as f32 as f64, p[1] as f32 as f64] } else { *p };
        let pm = p[0].abs().max(p[1].abs());
        let want = [(p[0] - ctr(&a, 0)) * s + ctr(&b, 0), (p[1] - ctr(&a, 1)) * s + ctr(&b, 1)];
        let tol = 16.0 * e * ((pm + big(&a)) * s + big(&b) + sb * (pm + big(&a)) / sa);
        let q = match o.call("transform_ab", || t.transform_ab(vf2(p[0], p[1]))) {
            Some(Ok(q)) => f2(q),
            Some(Err(x)) => {
                o.fail("affine:ab_err", format!("transform_ab({p:?}): {x:?}"));
                return;
            }
            None => return,
        };
        let ok = (q.0 - want[0]).abs() <= tol && (q.1 - want[1]).abs() <= tol;
        let _ = o.check(ok, "affine:ab", || format!("transform_ab({p:?}) = {q:?} instead of {want:?} (source {a:?} destination {b:?})"));
        if i < 4 && fits {
            let ok = q.0 >= b.0[0] - tol && q.0 <= b.1[0] + tol && q.1 >= b.0[1] - tol && q.1 <= b.1[1] + tol;
            let _ = o.check(ok, "affine:fits", || format!("the point {p:?} of the source box {a:?} is mapped to {q:?}, outside of {b:?}"));
        }
        // and back
        let tol2 = tol / s + 16.0 * e * (pm + big(&a) + (big(&b) + (q.0.abs()).max(q.1.abs())) / s);
        match o.call("transform_ba", || t.transform_ba(vf2(q.0, q.1))) {
            Some(Ok(r)) => {
                let r = f2(r);
                let ok = (r.0 - p[0]).abs() <= tol2 && (r.1 - p[1]).abs() <= tol2;
                let _ = o.check(ok, "affine:round_trip", || format!("transform_ba(transform_ab({p:?})) = {r:?}"));
            }
            Some(Err(x)) => o.fail("affine:ba_err", format!("transform_ba({q:?}): {x:?}")),
            None => return,
        }
        arr.push((p, q));
    }
    // the array versions
    let s4 = |p: [f64; 2], q: [f64; 2]| [sc::<T::Scalar>(p[0]), sc(p[1]), sc(q[0]), sc(q[1])];
    let u4 = |v: [T::Scalar; 4]| {
        let f: Vec<f64> = v.iter().map(|x| (*x).into()).collect();
        f
    };
    for w in arr.windows(2) {
        let (p, q) = (w[0], w[1]);
        let tol = 16.0 * e * ((sa + big(&a)) * 6.0 * s + big(&b));
        match o.call("transform_ab_a", || t.transform_ab_a(s4(p.0, q.0))) {
            Some(Ok(v)) => {
                let v = u4(v);
                let want = [p.1 .0, p.1 .1, q.1 .0, q.1 .1];
                let ok = v.iter().zip(want.iter()).all(|(x, y)| (x - y).abs() <= tol);
                let _ = o.check(ok, "affine:ab_a", || format!("transform_ab_a {v:?} but transform_ab {want:?}"));
                match o.call("transform_ba_a", || t.transform_ba_a(s4([v[0], v[1]], [v[2], v[3]]))) {
                    Some(Ok(r)) => {
                        let r = u4(r);
                        let want = [p.0[0], p.0[1], q.0[0], q.0[1]];
                        let tol2 = 2.0 * tol / s + 16.0 * e * ((sa + big(&a)) * 6.0 + big(&b) / s);
                        let ok = r.iter().zip(want.iter()).all(|(x, y)| (x - y).abs() <= tol2);
                        let _ = o.check(ok, "affine:ba_a", || format!("transform_ba_a(transform_ab_a({want:?})) = {r:?}"));
                    }
                    Some(Err(x)) => o.fail("affine:ba_a_err", format!("{x:?}")),
                    None => return,
                }
            }
            Some(Err(x)) => o.fail("affine:ab_a_err", format!("{x:?}")),
            None => return,
        }
    }
    // results that are not finite are errors
    let mx: f64 = T::Scalar::max_value().into();
    let inf = sc::<T::Scalar>(*rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]));
    let fine = sc::<T::Scalar>(1.0);
    let slot = rng.us(4);
    let te = |r: bool, o: &mut Obs, n: &str| {
        let _ = o.check(r, &format!("affine:not_finite:{n}"), || format!("{n} of a non-finite point (component {slot}) is not a TransformError"));
    };
    let p = if slot % 2 == 0 { T::new_2d(inf, fine) } else { T::new_2d(fine, inf) };
    if let Some(r) = o.call("transform_ab", || t.transform_ab(p)) {
        te(matches!(r, Err(LinestringError::TransformError(_))), o, "transform_ab");
    }
    if let Some(r) = o.call("transform_ba", || t.transform_ba(p)) {
        te(matches!(r, Err(LinestringError::TransformError(_))), o, "transform_ba");
    }
    let mut v4 = [fine; 4];
    v4[slot] = inf;
    if let Some(r) = o.call("transform_ab_a", || t.transform_ab_a(v4)) {
        te(matches!(r, Err(LinestringError::TransformError(_))), o, "transform_ab_a");
    }
    if let Some(r) = o.call("transform_ba_a", || t.transform_ba_a(v4)) {
        te(matches!(r, Err(LinestringError::TransformError(_))), o, "transform_ba_a");
    }
    // overflow
    let huge = mx * 0.9;
    if s > 1.5 {
        o.n("overflow");
        let p: T = vf2(if slot % 2 == 0 { huge } else { 0.0 }, if slot % 2 == 0 { 0.0 } else { huge });
        if let Some(r) = o.call("transform_ab", || t.transform_ab(p)) {
            te(matches!(r, Err(LinestringError::TransformError(_))), o, "transform_ab");
        }
    } else if s < 0.7 {
        o.n("overflow");
        let p: T = vf2(if slot % 2 == 0 { huge } else { 0.0 }, if slot % 2 == 0 { 0.0 } else { huge });
        if let Some(r) = o.call("transform_ba", || t.transform_ba(p)) {
            te(matches!(r, Err(LinestringError::TransformError(_))), o, "transform_ba");
        }
    }
    // a transformation made by hand: other scales for x and y, mirrored axes; everything is exact
    let g = |rng: &mut Rng| rng.range(-500, 500) as f64 / 8.0;
    let (ao, bo) = ([g(rng), g(rng)], [g(rng), g(rng)]);
    let sc2 = |rng: &mut Rng| *rng.pick(&[0.25, 0.5, 1.0, 2.0, 4.0, 8.0]) * *rng.pick(&[1.0, -1.0]);
    let sl = [sc2(rng), sc2(rng)];
    let hand = SimpleAffine::<T> { a_offset: [sc(ao[0]), sc(ao[1])], scale: [sc(sl[0]), sc(sl[1])], b_offset: [sc(bo[0]), sc(bo[1])] };
    let ab = |p: [f64; 2]| [(p[0] + ao[0]) * sl[0] + bo[0], (p[1] + ao[1]) * sl[1] + bo[1]];
    let ba = |p: [f64; 2]| [(p[0] - bo[0]) / sl[0] - ao[0], (p[1] - bo[1]) / sl[1] - ao[1]];
    let (p, q) = ([g(rng), g(rng)], [g(rng), g(rng)]);
    o.n("made_by_hand");
    type M<'a> = &'a dyn Fn([f64; 2]) -> [f64; 2];
    let what = || format!("a_offset {ao:?} scale {sl:?} b_offset {bo:?} points {p:?} {q:?}");
    for (name, f) in [("transform_ab", &ab as M<'_>), ("transform_ba", &ba as M<'_>)] {
        let one = o.call(name, || if name == "transform_ab" { hand.transform_ab(vf2(p[0], p[1])) } else { hand.transform_ba(vf2(p[0], p[1])) });
        let w = f(p);
        if let Some(r) = one {
            let _ = o.check(matches!(r, Ok(r) if f2(r) == (w[0], w[1])), &format!("affine:hand:{name}"), || format!("{name}: {r:?} instead of {w:?}, {}", what()));
        }
        let four = o.call(name, || if name == "transform_ab" { hand.transform_ab_a(s4(p, q)) } else { hand.transform_ba_a(s4(p, q)) });
        let w2 = f(q);
        if let Some(r) = four {
            let ok = matches!(r, Ok(r) if u4(r) == [w[0], w[1], w2[0], w2[1]]);
            let _ = o.check(ok, &format!("affine:hand:{name}_a"), || format!("{name}_a: {r:?} instead of {w:?} {w2:?}, {}", what()));
        }
    }
    // near the largest number: every finite result counts, every other one is an error
    let mut far = || mx * if rng.chance(1, 2) { rng.fr(0.3, 0.45) } else { rng.fr(0.6, 0.95) } * if rng.chance(1, 2) { -1.0 } else { 1.0 };
    let (p, q) = ([far(), far()], [far(), far()]);
    let what = || format!("a_offset {ao:?} scale {sl:?} b_offset {bo:?} points {p:?} {q:?}");
    for (name, forth) in [("transform_ab", true), ("transform_ba", false)] {
        let w: Vec<f64> = [p[0], p[1], q[0], q[1]].iter().enumerate().map(|(i, x)| if forth { x * sl[i % 2] } else { x / sl[i % 2] }).collect();
        let fin = |w: &[f64]| w.iter().all(|x| x.abs() < mx);
        let same = |x: f64, w: f64| (x / w - 1.0).abs() < 8.0 * e;
        o.n(if fin(&w) { "largest_results" } else { "overflow_by_hand" });
        let one = o.call(name, || if forth { hand.transform_ab(vf2(p[0], p[1])) } else { hand.transform_ba(vf2(p[0], p[1])) });
        if let Some(r) = one {
            let ok = match r {
                Ok(r) => fin(&w[..2]) && same(f2(r).0, w[0]) && same(f2(r).1, w[1]),
                Err(LinestringError::TransformError(_)) => !fin(&w[..2]),
                Err(_) => false,
            };
            let _ = o.check(ok, &format!("affine:largest:{name}"), || format!("{name}: {r:?} instead of {w:?}, {}", what()));
        }
        let four = o.call(name, || if forth { hand.transform_ab_a(s4(p, q)) } else { hand.transform_ba_a(s4(p, q)) });
        if let Some(r) = four {
            let ok = match &r {
                Ok(r) => fin(&w) && u4(*r).iter().zip(w.iter()).all(|(x, w)| same(*x, *w)),
                Err(LinestringError::TransformError(_)) => !fin(&w),
                Err(_) => false,
            };
            let _ = o.check(ok, &format!("affine:largest:{name}_a"), || format!("{name}_a: {r:?} instead of {w:?}, {}", what()));
        }
    }
    // the default is the identity
    let id = SimpleAffine::<T>::default();
    let q: T = vf2(arr[0].1 .0, arr[0].1 .1);
    let ok = matches!(id.transform_ab(q), Ok(r) if r == q) && matches!(id.transform_ba(q), Ok(r) if r == q);
    let _ = o.check(ok, "affine:identity", || format!("the default transformation moves {q:?}"));
}
pub fn case_c18(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, affine_case(rng, o));
}

// ------------------------------------------------------------------ C19
fn plane_case<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let k = *rng.pick(&[1.0, 1.0, 0.1, 1e-3, 1e4, 1e-12, 1e-20, 1e20]);
    let r = *rng.pick(&[2i64, 100, 100_000]);
    let n = rng.us(8);
    let rt = |x: f64| if T::F32 { x as f32 as f64 } else { x };
    let v: Vec<F3> = (0..n)
        .map(|_| {
            let p = gp(rng, r, k, true);
            [rt(p[0]), rt(p[1]), rt(p[2])]
        })
        .collect();
    o.input(|| format!("backend {} points {:?}", T::NAME, v));
    let tv: Vec<T> = v.iter().map(|p| mk3(*p)).collect();
    let two = |p: F3, plane: Plane, string: bool| match (plane, string) {
        (Plane::XY, _) => (p[0], p[1]),
        (Plane::XZ, _) => (p[0], p[2]),
        (Plane::YZ, false) => (p[1], p[2]),
        (Plane::YZ, true) => (p[2], p[1]),
    };
    let three = |p: F3, plane: Plane| match plane {
        Plane::XY => [p[0], p[1], 0.0],
        Plane::XZ => [p[0], 0.0, p[2]],
        Plane::YZ => [0.0, p[1], p[2]],
    };
    let g2 = |p: T::Vector2| -> (f64, f64) { (p.x().into(), p.y().into()) };
    let mut h = Fnv::new();
    v.iter().for_each(|p| p.iter().for_each(|x| h.u(x.to_bits())));
    if n > 0 {
        o.nontrivial(h.0);
    }
    for plane in [Plane::XY, Plane::XZ, Plane::YZ] {
        // single points and lines
        for (i, p) in v.iter().enumerate() {
            let q = plane.point_to_2d::<T>(tv[i]);
            let _ = o.check(g2(q) == two(*p, plane, false), "plane:point_to_2d", || format!("{plane:?}.point_to_2d({p:?}) = {:?}", g2(q)));
            let b = un3(plane.point_to_3d::<T>(q));
            let _ = o.check(b == three(*p, plane), "plane:point_to_3d", || format!("{plane:?}.point_to_3d(point_to_2d({p:?})) = {b:?}"));
            let j = (i + 1) % n;
            let l = Line3::<T>::new(tv[i], tv[j]).copy_to_2d(plane);
            let ok = g2(l.start) == two(*p, plane, false) && g2(l.end) == two(v[j], plane, false);
            let _ = o.check(ok, "plane:line_to_2d", || format!("{plane:?}: Line3 {p:?}-{:?} copied to {:?}-{:?}", v[j], g2(l.start), g2(l.end)));
            let m = linestring_2d::Line2::new(l.start, l.end).copy_to_3d(plane);
            let s = |p: <T::Vector2 as GenericVector2>::Vector3| -> F3 { [p.x().into(), p.y().into(), p.z().into()] };
            let ok = s(m.start) == three(*p, plane) && s(m.end) == three(v[j], plane);
            let _ = o.check(ok, "plane:line_to_3d", || format!("{plane:?}: Line2 copied back to {:?}-{:?}", s(m.start), s(m.end)));
        }
        // line strings
        if let Some(w) = o.call("copy_to_2d", || tv.copy_to_2d(plane)) {
            let g: Vec<(f64, f64)> = w.iter().map(|p| g2(*p)).collect();
            let want: Vec<(f64, f64)> = v.iter().map(|p| two(*p, plane, true)).collect();
            let _ = o.check(g == want, "plane:string_to_2d", || format!("{plane:?}: LineString3 {v:?} copied to {g:?}"));
            if let Some(b) = o.call("copy_to_3d", || w.copy_to_3d(plane)) {
                let g: Vec<F3> = b.iter().map(|p| [p.x().into(), p.y().into(), p.z().into()]).collect();
                let want: Vec<F3> = v.iter().map(|p| three(*p, plane)).collect();
                let _ = o.check(g == want, "plane:string_to_3d", || format!("{plane:?}: LineString2 copied back to {g:?} instead of {want:?}"));
            }
        }
        o.n("planes");
    }
    // the plane of a box
    let e = eps3::<T>();
    let mut lo = gp(rng, r, k, true);
    let mut hi = lo;
    let m = rng.range(1, 1000) as f64 * k;
    for i in 0..3 {
        lo[i] = rt(lo[i]);
        hi[i] = rt(lo[i]
            + match rng.us(6) {
                0 | 1 => 0.0,
                2 => m * rng.fr(0.0, 3.0) * 0.01,
                _ => m * rng.fr(0.1, 1.0),
            });
    }
    let relax = *rng.pick(&[0.0, 0.001, 0.01, 0.05]);
    let b = Aabb3::<T>::with_points(&[mk3(lo), mk3(hi)]);
    let d: Vec<f64> = (0..3).map(|i| rt(hi[i] - lo[i])).collect();
    let mx = d.iter().cloned().fold(0.0, f64::max);
    let expect = |eps: f64| -> Option<Option<Plane>> {
        if mx == 0.0 {
            return Some(None);
        }
        let mut flat = [false; 3];
        for i in 0..3 {
            let q = d[i] / mx;
            if q != 0.0 && (q - eps).abs() <= eps * 0.01 + 8.0 * e {
                return None;
            }
            flat[i] = q <= eps;
        }
        Some(match flat {
            [true, false, false] => Some(Plane::YZ),
            [false, true, false] => Some(Plane::XZ),
            [false, false, true] => Some(Plane::XY),
            _ => None,
        })
    };
    for (name, eps, got) in [
        ("get_plane", e, o.call("get_plane", || Plane::get_plane(b))),
        ("get_plane_relaxed", relax, o.call("get_plane_relaxed", || Plane::get_plane_relaxed(b, sc(relax), <T::Scalar as UlpsEq>::default_max_ulps()))),
    ] {
        if let (Some(got), Some(want)) = (got, expect(eps)) {
            o.n(if want.is_some() { "flat_boxes" } else { "other_boxes" });
            let _ = o.check(got == want, &format!("plane:{name}"), || format!("{name} (epsilon {eps}) of the box {lo:?} {hi:?} is {got:?} instead of {want:?}"));
        }
    }
    let none = Plane::get_plane(Aabb3::<T>::default());
    let _ = o.check(none.is_none(), "plane:empty", || format!("plane of nothing: {none:?}"));
}
pub fn case_c19(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch3!(b, plane_case(rng, o));
}

// ------------------------------------------------------------------ C22
fn exact_len<I: ExactSizeIterator>(i: &I) -> usize {
    i.len()
}
macro_rules! view_case {
    ($name:ident, $bound:ident, $ls:ident, $mk:ident, $un:ident, $three:expr, $exact:expr, $pre:expr, $approx:path, $xlen:expr) => {
        fn $name<T: $bound>(rng: &mut Rng, o: &mut Obs) {
            let n = rng.us(9);
            let r = *rng.pick(&[1i64, 2, 1000]);
            let mut v: Vec<F3> = (0..n).map(|_| gp(rng, r, 1.0, $three)).collect();
            if n > 1 && rng.chance(1, 3) {
                v[n - 1] = v[0];
            }
            let tv: Vec<T> = v.iter().map(|p| $mk(*p)).collect();
            o.input(|| format!("{} backend {} points {:?}", $pre, T::NAME, v));
            let mut h = Fnv::new();
            v.iter().for_each(|p| p.iter().for_each(|x| h.u(x.to_bits())));
            if n > 1 {
                o.nontrivial(h.0);
            }
            let closed = n == 0 || v[0] == v[n - 1];
            o.n(if closed { "closed" } else { "open" });
            let g = tv.is_connected();
            let _ = o.check(g == closed, concat!($pre, ":is_connected"), || format!("is_connected {g}: {v:?}"));
            // consecutive pairs
            let want: Vec<(F3, F3)> = v.windows(2).map(|w| (w[0], w[1])).collect();
            let mut it = tv.window_iter();
            for i in 0..=want.len() {
                let left = want.len() - i;
                let ok = it.len() == left && it.is_empty() == (left == 0);
                if !o.check(ok, concat!($pre, ":window_len"), || format!("window_iter: len {} is_empty {} with {left} left; {} points", it.len(), it.is_empty(), n)) {
                    return;
                }
                let (lo, hi) = it.size_hint();
                let ok = lo <= left && hi.map(|h| h >= left).unwrap_or(true) && (!$exact || (lo == left && hi == Some(left)));
                let ok = ok && (!$exact || $xlen(&it) == left);
                let _ = o.check(ok, concat!($pre, ":window_size_hint"), || format!("window_iter: size_hint {:?} with {left} left", (lo, hi)));
                let g = it.next().map(|l| ($un(l.start), $un(l.end)));
                let _ = o.check(g == want.get(i).cloned(), concat!($pre, ":window_iter"), || format!("window_iter item {i} {g:?}; {v:?}"));
                o.n("pairs");
            }
            // disjoint pairs
            let want: Vec<(F3, F3)> = v.chunks_exact(2).map(|w| (w[0], w[1])).collect();
            let mut it = tv.chunk_iter();
            let rem: Vec<F3> = it.remainder().iter().map(|p| $un(*p)).collect();
            let _ = o.check(rem == v[2 * want.len()..], concat!($pre, ":remainder"), || format!("remainder {rem:?}; {v:?}"));
            for i in 0..=want.len() {
                let left = want.len() - i;
                let ok = it.len() == left && it.is_empty() == (left == 0);
                if !o.check(ok, concat!($pre, ":chunk_len"), || format!("chunk_iter: len {} is_empty {} with {left} left; {} points", it.len(), it.is_empty(), n)) {
                    return;
                }
                let (lo, hi) = it.size_hint();
                let _ = o.check(lo <= left && hi.map(|h| h >= left).unwrap_or(true), concat!($pre, ":chunk_size_hint"), || format!("chunk_iter: size_hint {:?} with {left} left", (lo, hi)));
                let g = it.next().map(|l| ($un(l.start), $un(l.end)));
                let _ = o.check(g == want.get(i).cloned(), concat!($pre, ":chunk_iter"), || format!("chunk_iter item {i} {g:?}; {v:?}"));
                o.n("pairs");
            }
            // apply: every point once, in order
            let mut tw = tv.clone();
            if o.call("apply", || tw.apply(&|p: T| $mk(op_map(4, 1.0, $un(p))))).is_some() {
                let g: Vec<F3> = tw.iter().map(|p| $un(*p)).collect();
                let want: Vec<F3> = v.iter().map(|p| $un($mk::<T>(op_map(4, 1.0, *p)))).collect();
                let _ = o.check(g == want, concat!($pre, ":apply"), || format!("apply: {g:?} instead of {want:?}"));
            }
            // approximate equality of line strings
            let mut w = v.clone();
            let tol = *rng.pick(&[0.5, 1.5, 2.5]);
            let mut differs = 0.0f64;
            if n > 0 && rng.chance(3, 4) {
                let i = if rng.chance(1, 3) { n - 1 } else { rng.us(n) };
                let c = rng.us(if $three { 3 } else { 2 });
                let d = rng.range(-3, 3) as f64;
                w[i][c] += d;
                differs = d.abs();
            }
            let other = rng.us(8);
            if other == 0 {
                w.push([0.0; 3]);
            } else if other == 1 && n > 0 {
                let _ = w.pop();
            }
            let same_len = w.len() == n;
            if n == w.len() {
                // what is left of the difference
                differs = v.iter().zip(w.iter()).flat_map(|(a, b)| (0..3).map(move |i| (a[i] - b[i]).abs())).fold(0.0, f64::max);
            }
            let want = same_len && differs <= tol;
            let tw: Vec<T> = w.iter().map(|p| $mk(*p)).collect();
            use $approx as A;
            let eps = <T::Scalar as AbsDiffEq>::default_epsilon();
            let g = <Vec<T> as A<T>>::abs_diff_eq(&tv, &tw, sc(tol));
            let gr = <Vec<T> as A<T>>::abs_diff_eq(&tw, &tv, sc(tol));
            o.n(if want { "approximately_equal" } else { "different" });
            let _ = o.check(g == want && gr == want, concat!($pre, ":abs_diff_eq"), || format!("abs_diff_eq({tol}) {g}/{gr} of {v:?} and {w:?}"));
            let want = same_len && differs == 0.0;
            let g = <Vec<T> as A<T>>::ulps_eq(&tv, &tw, eps, 4);
            let gr = <Vec<T> as A<T>>::ulps_eq(&tw, &tv, eps, 4);
            let _ = o.check(g == want && gr == want, concat!($pre, ":ulps_eq"), || format!("ulps_eq {g}/{gr} of {v:?} and {w:?}"));
        }
    };
}
view_case!(view2, Backend2, LineString2, mk2, un2, false, true, "2d", linestring::linestring_2d::Approx, exact_len);
view_case!(view3, Backend3, LineString3, mk3, un3, true, false, "3d", linestring::linestring_3d::Approx, |_: &_| 0usize);

/// approximate equality of single lines does not depend on the direction
fn line_eq<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = *rng.pick(&[1i64, 2, 6]);
    let a: [F3; 2] = [gp(rng, r, 1.0, false), gp(rng, r, 1.0, false)];
    let mut b = a;
    match rng.us(4) {
        0 => b = [gp(rng, r, 1.0, false), gp(rng, r, 1.0, false)],
        1 => {}
        _ => {
            b[rng.us(2)][rng.us(2)] += rng.range(-2, 2) as f64;
            b[rng.us(2)][rng.us(2)] += rng.range(-2, 2) as f64;
        }
    }
    if rng.chance(1, 2) {
        b.swap(0, 1);
    }
    let tol = *rng.pick(&[0.5, 1.5, 2.5]);
    let near = |p: F3, q: F3, t: f64| (0..2).all(|i| (p[i] - q[i]).abs() <= t);
    let eq = |t: f64| (near(a[0], b[0], t) && near(a[1], b[1], t)) || (near(a[0], b[1], t) && near(a[1], b[0], t));
    o.input(|| format!("line approx backend {} {:?} {:?} tolerance {tol}", T::NAME, a, b));
    let l = |p: [F3; 2]| Line2::<T>::new(mk2(p[0]), mk2(p[1]));
    o.n(if eq(tol) { "approximately_equal_lines" } else { "different_lines" });
    let eps = <T::Scalar as AbsDiffEq>::default_epsilon();
    for (x, y) in [(a, b), (b, a), ([a[1], a[0]], b), (a, [b[1], b[0]])] {
        let g = AbsDiffEq::abs_diff_eq(&l(x), &l(y), sc(tol));
        let _ = o.check(g == eq(tol), "line2:abs_diff_eq", || format!("abs_diff_eq({tol}) of {x:?} and {y:?} is {g}"));
        let g = UlpsEq::ulps_eq(&l(x), &l(y), eps, 4);
        let _ = o.check(g == eq(0.0), "line2:ulps_eq", || format!("ulps_eq of {x:?} and {y:?} is {g}"));
        let g = l(x) == l(y);
        let _ = o.check(g == (x[0] == y[0] && x[1] == y[1]), "line2:eq", || format!("{x:?} == {y:?} is {g}"));
    }
    // the macros use the default tolerances of the scalar type
    let e1 = <Line2<T> as AbsDiffEq>::default_epsilon() == eps && <Line2<T> as UlpsEq>::default_max_ulps() == <T::Scalar as UlpsEq>::default_max_ulps();
    let _ = o.check(e1, "line2:default_tolerance", || "Line2 has other default tolerances than its scalar".into());
    let s = |x: f64| sc::<T::Scalar>(x);
    let ok = l(a) == Line2::from([s(a[0][0]), s(a[0][1]), s(a[1][0]), s(a[1][1])]) && l(a) == Line2::from([[s(a[0][0]), s(a[0][1])], [s(a[1][0]), s(a[1][1])]]);
    let _ = o.check(ok, "line2:from", || format!("Line2::from {a:?}"));
}
fn line3_misc<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let a: [F3; 2] = [gp(rng, 9, 1.0, true), gp(rng, 9, 1.0, true)];
    let s = |x: f64| sc::<T::Scalar>(x);
    let l = Line3::<T>::from([s(a[0][0]), s(a[0][1]), s(a[0][2]), s(a[1][0]), s(a[1][1]), s(a[1][2])]);
    let ok = un3(l.start) == a[0] && un3(l.end) == a[1] && l == Line3::new(mk3(a[0]), mk3(a[1])) && l == Line3::from([mk3::<T>(a[0]), mk3::<T>(a[1])]);
    let _ = o.check(ok, "line3:from", || format!("Line3::from {a:?} = {l:?}"));
    let m = l.apply(|p| mk3(op_map(4, 1.0, un3(p))));
    let ok = un3(m.start) == op_map(4, 1.0, a[0]) && un3(m.end) == op_map(4, 1.0, a[1]);
    let _ = o.check(ok, "line3:apply", || format!("Line3::apply {a:?} = {m:?}"));
}
fn point_count<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let n = rng.us(6);
    let mut v: Vec<F3> = (0..n).map(|_| gp(rng, 2, 1.0, false)).collect();
    if n > 1 && rng.chance(1, 2) {
        v[n - 1] = v[0];
    }
    let tv: Vec<T> = v.iter().map(|p| mk2(*p)).collect();
    let want = if n > 2 && v[0] == v[n - 1] { n - 1 } else { n };
    let g = tv.point_count();
    let _ = o.check(g == want, "2d:point_count", || format!("point_count {g} of {v:?}"));
}
pub fn case_c22(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    match rng.us(5) {
        0 | 1 => dispatch2!(b, view2(rng, o)),
        2 => dispatch3!(b, view3(rng, o)),
        3 => dispatch2!(b, line_eq(rng, o)),
        _ => {
            dispatch2!(b, point_count(rng, o));
            dispatch3!(b, line3_misc(rng, o));
        }
    }
}

// ------------------------------------------------------------------ C26
fn dist_points(rng: &mut Rng, r: i64, three: bool) -> (P3, P3, P3) {
    let p = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r), if three { rng.range(-r, r) } else { 0 });
    let (a, mut b) = (p(rng), p(rng));
    if rng.chance(1, 4) {
        match rng.us(3) {
            0 => b = (a.0, b.1, a.2),
            1 => b = (b.0, a.1, a.2),
            _ => b = a,
        }
    }
    let q = match rng.us(7) {
        6 => {
            // a little before or behind the end, beside the line or on it
            let d = (b.0 - a.0, b.1 - a.1, b.2 - a.2);
            let l = ((d.0 * d.0 + d.1 * d.1 + d.2 * d.2) as f64).sqrt().max(1.0);
            let s = l.powf(rng.fr(0.0, 1.0)) * if rng.chance(1, 3) { -1.0 } else { 1.0 };
            let w = if rng.chance(1, 2) { 0.0 } else { l.powf(rng.fr(0.0, 0.5)) };
            let f = |x: i64, d: i64, e: i64| x + ((d as f64 * s + e as f64 * w) / l).round() as i64;
            (f(b.0, d.0, -d.1), f(b.1, d.1, d.0), f(b.2, d.2, 0))
        }
        0 => a,
        1 => b,
        2 => {
            // on the line
            let t = rng.range(-1, 2);
            (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1), a.2 + t * (b.2 - a.2))
        }
        3 => (a.0 - (b.1 - a.1), a.1 + (b.0 - a.0), a.2),
        _ => p(rng),
    };
    (a, b, q)
}
fn dist_scale(rng: &mut Rng, f32s: bool) -> f64 {
    // (the smallest ones are still far above the absolute epsilon of the comparison of the end points)
    match rng.us(5) {
        0 | 1 => 1.0,
        2 => 0.125,
        3 => 16.0,
        _ => 2f64.powi(if f32s { rng.range(-16, 10) } else { rng.range(-40, 60) } as i32),
    }
}
fn far3(a: P3, b: P3, q: P3) -> f64 {
    let l = |v: (i128, i128, i128)| (dot3(v, v) as f64).sqrt();
    l(sub3(q, a)).max(l(sub3(q, b))).max(l(sub3(b, a)))
}
fn dist2d<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = if T::F32 { *rng.pick(&[2i64, 10, 400]) } else { *rng.pick(&[2i64, 10, 400, 100_000]) };
    let k = dist_scale(rng, T::F32);
    let rounded = rng.chance(1, 4);
    let r = if rounded { 1i64 << rng.range(14, if T::F32 { 20 } else { 28 }) } else { r };
    let (a, b, q) = dist_points(rng, r, false);
    if rounded {
        o.n("rounded_coordinates");
    }
    o.input(|| format!("2d backend {} scale {k} line {a:?}-{b:?} point {q:?}", T::NAME));
    let f = |p: P3| v2::<T>((p.0, p.1), k);
    let want = dist2_3(a, b, q, true) * k * k;
    let tol = 16.0 * eps::<T>() * want;
    // (a rounded cross product gives an error proportional to the distance from the ends)
    let reach = if rounded { 16.0 * eps::<T>() * k * far3(a, b, q) } else { 0.0 };
    let good = |g: f64| (g - want).abs() <= tol || (rounded && (g.sqrt() - want.sqrt()).abs() <= reach);
    note_dist(o, a, b, q);
    for (x, y) in [(a, b), (b, a)] {
        if let Some(g) = o.call("distance_to_line_squared_safe", || linestring_2d::distance_to_line_squared_safe(f(x), f(y), f(q))) {
            let g: f64 = g.into();
            let _ = o.check(good(g), "2d:distance_safe", || format!("distance_to_line_squared_safe({x:?},{y:?},{q:?}) = {g} instead of {want} (scale {k})"));
        }
        if a != b {
            if let Some(g) = o.call("distance_to_line_squared", || linestring_2d::distance_to_line_squared(f(x), f(y), f(q))) {
                let g: f64 = g.into();
                let _ = o.check(good(g), "2d:distance", || format!("distance_to_line_squared({x:?},{y:?},{q:?}) = {g} instead of {want} (scale {k})"));
            }
        }
    }
    let s = rng.range(-5, 5);
    let g = f2(linestring_2d::scale_to_coordinate(f(a), f(b), sc::<T::Scalar>(s as f64)));
    let want = ((a.0 + s * b.0) as f64 * k, (a.1 + s * b.1) as f64 * k);
    let _ = o.check(g == want, "2d:scale_to_coordinate", || format!("scale_to_coordinate({a:?},{b:?},{s}) = {g:?} instead of {want:?}"));
}
fn note_dist(o: &mut Obs, a: P3, b: P3, q: P3) {
    let mut h = Fnv::new();
    for p in [a, b, q] {
        h.u(p.0 as u64);
        h.u(p.1 as u64);
        h.u(p.2 as u64);
    }
    o.nontrivial(h.0);
    if a == b {
        o.n("segment_is_a_point");
        return;
    }
    let (d, e) = (sub3(b, a), sub3(q, a));
    let t = dot3(d, e);
    let c = cross3(d, e);
    if dot3(c, c) == 0 {
        o.n("on_the_line");
    }
    o.n(if t < 0 || t > dot3(d, d) { "beyond_the_ends" } else { "beside_the_segment" });
}
fn dist3d<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let r = if T::F32 { *rng.pick(&[2i64, 10, 400]) } else { *rng.pick(&[2i64, 10, 400, 30_000]) };
    let k = dist_scale(rng, T::F32);
    let rounded = rng.chance(1, 4);
    let r = if rounded { 1i64 << rng.range(14, if T::F32 { 20 } else { 28 }) } else { r };
    let (a, b, q) = dist_points(rng, r, true);
    if rounded {
        o.n("rounded_coordinates");
    }
    o.input(|| format!("3d backend {} scale {k} line {a:?}-{b:?} point {q:?}", T::NAME));
    let f = |p: P3| vf3::<T>(p.0 as f64 * k, p.1 as f64 * k, p.2 as f64 * k);
    // in 3D it is the distance to the infinite line
    let want = dist2_3(a, b, q, false) * k * k;
    let tol = 16.0 * eps3::<T>() * want;
    // (a rounded cross product gives an error proportional to the distance from the ends)
    let reach = if rounded { 16.0 * eps3::<T>() * k * far3(a, b, q) } else { 0.0 };
    let good = |g: f64| (g - want).abs() <= tol || (rounded && (g.sqrt() - want.sqrt()).abs() <= reach);
    note_dist(o, a, b, q);
    for (x, y) in [(a, b), (b, a)] {
        if let Some(g) = o.call("distance_to_line_squared_safe", || linestring_3d::distance_to_line_squared_safe(f(x), f(y), f(q))) {
            let g: f64 = g.into();
            let _ = o.check(good(g), "3d:distance_safe", || format!("distance_to_line_squared_safe({x:?},{y:?},{q:?}) = {g} instead of {want} (scale {k})"));
        }
        if a != b {
            if let Some(g) = o.call("distance_to_line_squared", || linestring_3d::distance_to_line_squared(f(x), f(y), f(q))) {
                let g: f64 = g.into();
                let _ = o.check(good(g), "3d:distance", || format!("distance_to_line_squared({x:?},{y:?},{q:?}) = {g} instead of {want} (scale {k})"));
            }
        }
    }
}
pub fn case_c26(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    if rng.chance(1, 2) {
        dispatch2!(b, dist2d(rng, o));
    } else {
        dispatch3!(b, dist3d(rng, o));
    }
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C17"))]
    Prop {
        id: "C17",
        case: case_c17,
        directed: &[],
        quick: 1_800_000,
        thorough: 72_000_000,
        threads: 8,
        rule: "random histories of box operations (construction, growth by points and boxes, apply) on 2-D and 3-D boxes, each state compared with a model; non-trivial: the box is not empty at the end",
        required: &["order_reversing_apply", "empty_box", "point_box", "boxes", "contained_points", "other_points", "limits_moved_by_a_few_ulps"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C18"))]
    Prop {
        id: "C18",
        case: case_c18,
        directed: &[],
        quick: 1_200_000,
        thorough: 48_000_000,
        threads: 8,
        rule: "pairs of boxes (also degenerate, tiny, empty) x points inside and outside, non-finite and overflowing; distinct pairs of boxes",
        required: &["empty_boxes", "destination_large_enough", "tiny_destination", "source_fills_destination", "tiny_source", "overflow", "made_by_hand", "largest_results", "overflow_by_hand"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C19"))]
    Prop {
        id: "C19",
        case: case_c19,
        directed: &[],
        quick: 1_500_000,
        thorough: 60_000_000,
        threads: 8,
        rule: "3-D points, lines and line strings x planes, and flat or almost flat boxes",
        required: &["planes", "flat_boxes", "other_boxes"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C22"))]
    Prop {
        id: "C22",
        case: case_c22,
        directed: &[],
        quick: 4_000_000,
        thorough: 160_000_000,
        threads: 8,
        rule: "line strings of 0-8 points; the iterators are observed at every step; non-trivial: at least two points",
        required: &["closed", "open", "pairs", "approximately_equal", "different", "approximately_equal_lines", "different_lines"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C26"))]
    Prop {
        id: "C26",
        case: case_c26,
        directed: &[],
        quick: 4_000_000,
        thorough: 160_000_000,
        threads: 8,
        rule: "lines and points on an integer grid: beside, beyond the ends, on the line, degenerate lines; distinct triples",
        required: &["segment_is_a_point", "on_the_line", "beyond_the_ends", "beside_the_segment", "rounded_coordinates"],
        assumptions: &[],
    },
];

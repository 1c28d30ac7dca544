//! C05 segment-segment intersection, C06 line string / line queries, C07 ray queries, C26 distance functions
use crate::core::*;
use crate::dispatch2;
use crate::exact::*;
use crate::gen::*;
use crate::p_big::{large, Large};
use crate::rng::*;
use linestring::linestring_2d::{self, Intersection, Line2, LineString2};

pub fn seg_radius(rng: &mut Rng, f32b: bool) -> i64 {
    if f32b {
        *rng.pick(&[3, 8, 30, 250, 1000])
    } else {
        *rng.pick(&[3, 8, 30, 250, 4000, 1 << 20])
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Got {
    None,
    Point((f64, f64)),
    Over((f64, f64), (f64, f64)),
}
/// result in grid units
pub fn got<T: Backend2>(i: &Option<Intersection<T>>, k: f64) -> Got {
    let u = |p: T| {
        let (x, y) = f2(p);
        (x / k, y / k)
    };
    match i {
        None => Got::None,
        Some(Intersection::Intersection(p)) => Got::Point(u(*p)),
        Some(Intersection::Overlap(l)) => Got::Over(u(l.start), u(l.end)),
    }
}
pub fn same_over(a: ((f64, f64), (f64, f64)), b: ((f64, f64), (f64, f64)), tol: f64) -> bool {
    (dist(a.0, b.0) <= tol && dist(a.1, b.1) <= tol) || (dist(a.0, b.1) <= tol && dist(a.1, b.0) <= tol)
}
/// does the answer agree with the exact one?
pub fn agree(g: Got, e: Inter, tol: f64) -> bool {
    match (g, e) {
        (Got::None, Inter::None) => true,
        (Got::Point(p), Inter::Point(x, y)) => dist(p, (x.f(), y.f())) <= tol,
        (Got::Over(a, b), Inter::Overlap(c, d)) => same_over((a, b), (pf(c), pf(d)), tol),
        _ => false,
    }
}
/// a degenerate segment is compared with a tolerance in the library (documented as
/// "approximately equal"): near misses within that tolerance have no defined answer
pub fn ambiguous<T: Backend2>(a: P, b: P, c: P, d: P, k: f64) -> bool {
    let amb = |s: P, t: P, p: P| {
        let l = (d2(s, t) as f64).sqrt();
        let h = seg_dist(pf(s), pf(t), pf(p));
        h > 0.0 && (h <= l * (12.0 * eps::<T>()).sqrt() || h * h <= l * 4.0 * eps::<T>() / k)
    };
    (a == b && amb(c, d, a)) || (c == d && amb(a, b, c))
}

fn seg_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = seg_radius(rng, T::F32);
    let k = seg_scale(rng, o, T::F32);
    let (a, b, c, d) = seg_pair(rng, r);
    o.input(|| format!("backend {} scale {} segments {:?}-{:?} {:?}-{:?}", T::NAME, k, a, b, c, d));
    if ambiguous::<T>(a, b, c, d, k) {
        o.n("within_tolerance_skipped");
        return;
    }
    let e = seg_inter(a, b, c, d);
    match e {
        Inter::None => o.n("disjoint_pairs"),
        Inter::Point(..) => o.n("single_point_pairs"),
        Inter::Overlap(..) => o.n("overlapping_pairs"),
    }
    if a == b || c == d {
        o.n("degenerate_pairs");
    }
    let mut h = Fnv::new();
    h.pts(&[a, b, c, d]);
    h.str(T::NAME);
    o.nontrivial(h.0);
    let tol = 8.0 * eps::<T>() * r as f64;
    let l = |p: P, q: P| Line2::<T>::new(v2(p, k), v2(q, k));
    let variants = [
        (l(a, b), l(c, d)),
        (l(b, a), l(c, d)),
        (l(a, b), l(d, c)),
        (l(b, a), l(d, c)),
        (l(c, d), l(a, b)),
        (l(d, c), l(a, b)),
        (l(c, d), l(b, a)),
        (l(d, c), l(b, a)),
    ];
    for (i, (x, y)) in variants.into_iter().enumerate() {
        if let Some(res) = o.call("intersection_point", || x.intersection_point(y)) {
            let g = got(&res, k);
            let _ = o.check(agree(g, e, tol), "intersection_point", || {
                format!("variant {i} (order/direction of the arguments): got {:?}, exact {:?}, segments {:?}-{:?} x {:?}-{:?}", g, e, a, b, c, d)
            });
            if let Some(res) = res {
                // single() is a common point; closest(q) is the nearest of the reported points
                let s = f2(res.single());
                let s = (s.0 / k, s.1 / k);
                let on = seg_dist(pf(a), pf(b), s) <= tol && seg_dist(pf(c), pf(d), s) <= tol;
                let _ = o.check(on, "single", || format!("single() = {:?} is not on both segments {:?}-{:?} {:?}-{:?}", s, a, b, c, d));
                let q = (rng.range(-r, r), rng.range(-r, r));
                if let Some(cl) = o.call("closest", || f2(res.closest(v2(q, k)))) {
                    let cl = (cl.0 / k, cl.1 / k);
                    let best = match g {
                        Got::Point(p) => dist(p, pf(q)),
                        Got::Over(p, s) => dist(p, pf(q)).min(dist(s, pf(q))),
                        Got::None => 0.0,
                    };
                    let is_one = match g {
                        Got::Point(p) => p == cl,
                        Got::Over(p, s) => p == cl || s == cl,
                        Got::None => false,
                    };
                    let _ = o.check(is_one && dist(cl, pf(q)) <= best + tol * 4.0, "closest", || format!("closest({:?}) = {:?} of {:?}", q, cl, g));
                }
            }
        }
    }
    // the point/segment function
    for p in [c, d, ((a.0 + b.0) / 2, (a.1 + b.1) / 2)] {
        if ambiguous::<T>(a, b, p, p, k) {
            continue;
        }
        let want = on_segment(a, b, p);
        for (s, t) in [(a, b), (b, a)] {
            if let Some(res) = o.call("intersect_line_point", || linestring_2d::intersect_line_point(l(s, t), v2(p, k))) {
                let g = got(&res, k);
                let ok = match g {
                    Got::None => !want,
                    Got::Point(q) => want && q == pf(p),
                    _ => false,
                };
                let _ = o.check(ok, "intersect_line_point", || format!("point {:?} on {:?}-{:?}: got {:?}, exact {}", p, s, t, g, want));
            }
        }
    }
}

/// coordinates whose products round: only decisions with a clear margin are judged
fn seg_float<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r: i64 = if T::F32 { 1 << 22 } else { 1 << 44 };
    let k = if T::F32 { 1.0 / 4096.0 } else { 1.0 / (1u64 << 30) as f64 };
    let rp = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let (a, b, c) = (rp(rng), rp(rng), rp(rng));
    let d = if rng.chance(1, 2) {
        // aim the second segment at a point of the first, often at one close to (or just behind) an
        // end, often ending just there
        let close = |rng: &mut Rng| 10f64.powf(rng.fr(-12.0, -1.0)) * if rng.chance(1, 2) { -1.0 } else { 1.0 };
        let t = match rng.us(4) {
            0 => close(rng),
            1 => 1.0 + close(rng),
            _ => rng.f(),
        };
        let m = (a.0 as f64 + t * (b.0 - a.0) as f64, a.1 as f64 + t * (b.1 - a.1) as f64);
        let s = if rng.chance(1, 2) { 1.0 + close(rng) } else { rng.fr(0.9, 1.5) };
        ((c.0 as f64 + s * (m.0 - c.0 as f64)) as i64, (c.1 as f64 + s * (m.1 - c.1 as f64)) as i64)
    } else {
        rp(rng)
    };
    if [a, b, c, d].iter().any(|p| p.0.abs() > r || p.1.abs() > r) {
        return;
    }
    let Some((want, t, u)) = clear_params(a, b, c, d, eps::<T>()) else { return };
    let rv = sub(b, a);
    o.input(|| format!("backend {} scale {} segments {:?}-{:?} {:?}-{:?}", T::NAME, k, a, b, c, d));
    o.n("float_pairs");
    if [t, u].iter().any(|x| x.abs().min((x - 1.0).abs()) < 1e-3) {
        o.n("float_pairs_near_an_end");
    }
    let mut h = Fnv::new();
    h.pts(&[a, b, c, d]);
    o.nontrivial(h.0);
    let p = (a.0 as f64 + t * rv.0 as f64, a.1 as f64 + t * rv.1 as f64);
    let tol = 8e3 * eps::<T>() * r as f64;
    let x = Line2::<T>::new(v2(a, k), v2(b, k));
    let y = Line2::<T>::new(v2(c, k), v2(d, k));
    for (x, y) in [(x, y), (y, x)] {
        if let Some(res) = o.call("intersection_point", || x.intersection_point(y)) {
            let g = got(&res, k);
            let ok = match g {
                Got::None => !want,
                Got::Point(q) => want && dist(q, p) <= tol,
                _ => false,
            };
            let _ = o.check(ok, "intersection_point:float", || format!("got {:?}, expected {} {:?}; segments {:?}-{:?} x {:?}-{:?} t {t} u {u}", g, want, p, a, b, c, d));
        }
    }
}

/// segments of very different lengths and positions: coordinates of all magnitudes
fn seg_mixed<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let bits = if T::F32 { 24 } else { 30 };
    // round to what a coordinate can hold
    let fl = |x: i64| {
        let n = 64 - x.unsigned_abs().leading_zeros() as i32 - bits;
        if n > 0 { (x >> n) << n } else { x }
    };
    let co = |rng: &mut Rng| {
        let e = rng.range(2, 58);
        fl(rng.range(-(1 << e), 1 << e))
    };
    let k = 2f64.powi(-(rng.range(5, 30) as i32));
    let a = (co(rng), co(rng));
    let mut b = (co(rng), co(rng));
    match rng.us(4) {
        0 => b.0 = a.0,
        1 => b.1 = a.1,
        _ => {}
    }
    let t = rng.fr(-0.1, 1.1);
    let m = (a.0 + (t * (b.0 - a.0) as f64) as i64, a.1 + (t * (b.1 - a.1) as f64) as i64);
    let (u, v) = (co(rng), co(rng));
    let s = rng.fr(-0.2, 1.2);
    let c = (fl(m.0 + u), fl(m.1 + v));
    let d = (fl(m.0 - (s * u as f64) as i64), fl(m.1 - (s * v as f64) as i64));
    let e = eps::<T>();
    // not a point for the library, whose epsilon is absolute, and not parallel for it
    let long = |p: P, q: P| [(p.0, q.0), (p.1, q.1)].iter().any(|(x, y)| (x - y).abs() as f64 * k > 8.0 * e && (x - y).abs() as f64 > 16.0 * e * x.abs().max(y.abs()) as f64);
    if !long(a, b) || !long(c, d) || (vcross(sub(b, a), sub(d, c)) as f64).abs() * k * k <= 8.0 * e {
        return;
    }
    let Some((want, t, u)) = clear_params(a, b, c, d, e) else { return };
    let (la, lc) = (dist(pf(a), pf(b)), dist(pf(c), pf(d)));
    if la.max(lc) > 1e4 * la.min(lc) {
        o.n("very_long_and_very_short");
    }
    o.input(|| format!("backend {} scale {} segments {:?}-{:?} {:?}-{:?}", T::NAME, k, a, b, c, d));
    let mut h = Fnv::new();
    h.pts(&[a, b, c, d]);
    o.nontrivial(h.0);
    let p = (a.0 as f64 + t * (b.0 - a.0) as f64, a.1 as f64 + t * (b.1 - a.1) as f64);
    // the distance along either segment is as good as its parameter
    let sin = (vcross(sub(b, a), sub(d, c)) as f64).abs() / (la * lc);
    let mag = [a, b, c, d].iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64;
    let tol = 64.0 * e / sin * (mag + la + lc + dist(pf(a), pf(c)));
    let x = Line2::<T>::new(v2(a, k), v2(b, k));
    let y = Line2::<T>::new(v2(c, k), v2(d, k));
    for (x, y) in [(x, y), (y, x)] {
        if let Some(res) = o.call("intersection_point", || x.intersection_point(y)) {
            let g = got(&res, k);
            let ok = match g {
                Got::None => !want,
                Got::Point(q) => want && dist(q, p) <= tol,
                _ => false,
            };
            let _ = o.check(ok, "intersection_point:mixed", || format!("got {:?}, expected {} {:?}; segments {:?}-{:?} x {:?}-{:?} t {t} u {u}", g, want, p, a, b, c, d));
        }
    }
}

/// nearly coincident lines, a few ulps askew: an overlap the library decides to report must lie on both
fn seg_near<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    // unit: x in [1/8, 1/4) has ulps of 2 (f32: of 2, with the coarser unit)
    let (k, one): (f64, i64) = if T::F32 { (1.0 / (1i64 << 27) as f64, 1 << 27) } else { (1.0 / (1i64 << 56) as f64, 1 << 56) };
    let x0 = one / 8 + rng.range(0, 1 << 19) * 2;
    let vertical = rng.chance(1, 2);
    let skewed = rng.chance(3, 4);
    let t: Vec<i64> = (0..4).map(|_| rng.range(-30, 30)).collect();
    let v: Vec<P> = t
        .iter()
        .map(|t| {
            let w = if skewed { x0 + 2 * rng.range(0, 2) } else { x0 };
            if vertical {
                (w, t * (one / 8))
            } else {
                (t * (one / 8), w)
            }
        })
        .collect();
    let (a, b, c, d) = (v[0], v[1], v[2], v[3]);
    if t[0] == t[1] || t[2] == t[3] {
        return;
    }
    o.input(|| format!("backend {} unit {} segments {:?}-{:?} {:?}-{:?}", T::NAME, k, a, b, c, d));
    let mut h = Fnv::new();
    h.pts(&[a, b, c, d]);
    h.str(T::NAME);
    o.nontrivial(h.0);
    o.n("near_coincident_pairs");
    let f = |p: P| (p.0 as f64 * k, p.1 as f64 * k);
    let tol = 4096.0 * eps::<T>();
    let l = |p: P, q: P| Line2::<T>::new(v2(p, k), v2(q, k));
    let (lo, hi) = (t[0].min(t[1]).max(t[2].min(t[3])), t[0].max(t[1]).min(t[2].max(t[3])));
    for (i, (x, y)) in [
        (l(a, b), l(c, d)),
        (l(b, a), l(c, d)),
        (l(a, b), l(d, c)),
        (l(b, a), l(d, c)),
        (l(c, d), l(a, b)),
        (l(d, c), l(a, b)),
        (l(c, d), l(b, a)),
        (l(d, c), l(b, a)),
    ]
    .into_iter()
    .enumerate()
    {
        if let Some(res) = o.call("intersection_point", || x.intersection_point(y)) {
            match got(&res, 1.0) {
                Got::Over(p, q) => {
                    o.n("near_coincident_overlaps");
                    let on = |p: (f64, f64)| seg_dist(f(a), f(b), p) <= tol && seg_dist(f(c), f(d), p) <= tol;
                    let len = (hi - lo).max(0) as f64 / 8.0;
                    let _ = o.check(on(p) && on(q) && (dist(p, q) - len).abs() <= 2.0 * tol, "intersection_point:near_coincident", || {
                        format!("variant {i}: overlap {:?}-{:?} of {:?}-{:?} and {:?}-{:?} (shared length {len})", p, q, f(a), f(b), f(c), f(d))
                    });
                }
                Got::None => {
                    if a.0 == b.0 && b.0 == c.0 && c.0 == d.0 || a.1 == b.1 && b.1 == c.1 && c.1 == d.1 {
                        let _ = o.check(hi < lo, "intersection_point:near_coincident", || format!("variant {i}: no intersection of {:?}-{:?} and {:?}-{:?}", f(a), f(b), f(c), f(d)));
                    }
                }
                Got::Point(_) => {}
            }
        }
    }
}

pub fn case_c05(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    if rng.chance(1, 8) {
        dispatch2!(b, seg_mixed(rng, o));
    } else if rng.chance(1, 5) {
        dispatch2!(b, seg_float(rng, o));
    } else if rng.chance(1, 8) {
        dispatch2!(b, seg_near(rng, o));
    } else {
        dispatch2!(b, seg_case(rng, o));
    }
}

// ------------------------------------------------------------------ C06
fn ls_line<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = if T::F32 { *rng.pick(&[3, 8, 30, 250]) } else { *rng.pick(&[3, 8, 30, 250, 4000]) };
    let k = seg_scale(rng, o, T::F32);
    let hullm = rng.chance(1, 3);
    let n = rng.ur(0, 14);
    let v: Vec<P> = if hullm {
        let m = rng.ur(3, 20);
        let mut h = hull(&cloud(rng, m, r));
        if h.len() < 3 {
            return;
        }
        let rot = rng.us(h.len());
        h.rotate_left(rot);
        let f = h[0];
        h.push(f);
        if rng.chance(1, 2) {
            h.reverse();
        }
        h
    } else if rng.chance(1, 4) {
        // a concave fan: many crossings with one line
        (0..n).map(|i| (rng.range(-r, r), if i % 2 == 0 { rng.range(0, r) } else { rng.range(-r, 0) })).collect()
    } else {
        polyline(rng, n, r)
    };
    // the probe line
    let rp = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let (c, d) = match rng.us(6) {
        0 if v.len() > 1 => {
            // collinear with an edge
            let i = rng.us(v.len() - 1);
            let s = sub(v[i + 1], v[i]);
            let g = (gcd(s.0 as i128, s.1 as i128) as i64).max(1);
            let f = |t: i64| ((v[i].0 + s.0 / g * t), (v[i].1 + s.1 / g * t));
            (f(rng.range(-g, 2 * g)), f(rng.range(-g, 2 * g)))
        }
        1 if !v.is_empty() => (*rng.pick(&v), *rng.pick(&v)),
        2 if !v.is_empty() => (*rng.pick(&v), rp(rng)),
        3 => {
            let y = rng.range(-r, r);
            if rng.chance(1, 2) {
                ((-r, y), (r, y))
            } else {
                ((y, -r), (y, r))
            }
        }
        _ => (rp(rng), rp(rng)),
    };
    let edges: Vec<(P, P)> = v.windows(2).map(|w| (w[0], w[1])).collect();
    o.input(|| format!("backend {} scale {} polyline {:?} line {:?}-{:?} hull {}", T::NAME, k, v, c, d, hullm));
    if edges.iter().any(|e| ambiguous::<T>(e.0, e.1, c, d, k)) {
        return;
    }
    let ex: Vec<Inter> = edges.iter().map(|e| seg_inter(e.0, e.1, c, d)).collect();
    let hits: Vec<usize> = (0..ex.len()).filter(|i| ex[*i] != Inter::None).collect();
    let tol = 32.0 * eps::<T>() * r as f64;
    let mut hh = Fnv::new();
    hh.pts(&v);
    hh.pts(&[c, d]);
    if !v.is_empty() {
        o.nontrivial(hh.0);
    }
    o.seen("edges_hit", hits.len() as u64);
    o.n(match hits.len() {
        0 => "no_hit",
        1 => "one_hit",
        2 => "two_hits",
        _ => "many_hits",
    });
    let tv: Vec<T> = v.iter().map(|p| v2(*p, k)).collect();
    let line = Line2::<T>::new(v2(c, k), v2(d, k));
    if let Some(res) = o.call("intersection", || tv.intersection(&line)) {
        let g = got(&res, k);
        let ok = match g {
            Got::None => hits.is_empty(),
            _ => hits.first().map(|i| agree(g, ex[*i], tol)).unwrap_or(false),
        };
        let _ = o.check(ok, "intersection", || format!("first intersection: got {:?}, exact per edge {:?}", g, ex));
    }
    if let Some(res) = o.call("find_all_intersections", || tv.find_all_intersections(&line)) {
        let gs: Vec<Got> = res.into_iter().map(|i| got(&Some(i), k)).collect();
        let ok = gs.len() == hits.len() && gs.iter().zip(hits.iter()).all(|(g, i)| agree(*g, ex[*i], tol));
        let _ = o.check(ok, "find_all_intersections", || format!("got {:?}, exact per edge {:?}", gs, ex));
    }
    if let Some((p, q)) = o.call("find_two_intersections", || tv.find_two_intersections(&line)) {
        let u = |p: Option<T>| {
            p.map(|p| {
                let (x, y) = f2(p);
                (x / k, y / k)
            })
        };
        let (p, q) = (u(p), u(q));
        // candidate points: single points, and both ends of overlaps
        let mut cand: Vec<(f64, f64)> = Vec::new();
        for e in &ex {
            match e {
                Inter::None => {}
                Inter::Point(x, y) => cand.push((x.f(), y.f())),
                Inter::Overlap(a, b) => {
                    cand.push(pf(*a));
                    cand.push(pf(*b));
                }
            }
        }
        let near = |p: (f64, f64)| cand.iter().any(|c| dist(*c, p) <= tol);
        // number of clearly distinct points
        let spread = cand.iter().flat_map(|a| cand.iter().map(move |b| dist(*a, *b))).fold(0.0, f64::max);
        let got_pts: Vec<(f64, f64)> = [p, q].iter().flatten().cloned().collect();
        let mut ok = got_pts.iter().all(|p| near(*p)) && !(p.is_none() && q.is_some());
        if cand.is_empty() {
            ok = ok && got_pts.is_empty();
        } else if spread > 4.0 * tol {
            ok = ok && got_pts.len() == 2 && got_pts[0] != got_pts[1];
            if hullm {
                // on a convex polygon the two points are the two ends of the common part
                ok = ok && dist(got_pts[0], got_pts[1]) > 0.0;
                let on_edge_overlap = ex.iter().any(|e| matches!(e, Inter::Overlap(..)));
                if !on_edge_overlap {
                    ok = ok && dist(got_pts[0], got_pts[1]) >= spread - 4.0 * tol;
                }
                o.n("hull_crossed_twice");
            }
        } else {
            ok = ok && !got_pts.is_empty();
            if hullm && spread == 0.0 {
                ok = ok && got_pts.len() == 1;
                o.n("hull_touched_once");
            }
        }
        let _ = o.check(ok, "find_two_intersections", || format!("got {:?} {:?}, exact per edge {:?}", p, q, ex));
    }
}
/// Are the parameters of the crossing of two lines clearly inside or outside of both segments? (None: not clear)
/// The coordinates and their differences are exact, only the products and quotients are rounded.
pub fn clear_params(a: P, b: P, c: P, d: P, e: f64) -> Option<(bool, f64, f64)> {
    let (rv, sv, qp) = (sub(b, a), sub(d, c), sub(c, a));
    let rxs = vcross(rv, sv);
    let (lr, ls, lq) = (dist(pf(a), pf(b)), dist(pf(c), pf(d)), dist(pf(a), pf(c)));
    if rxs == 0 {
        return None;
    }
    let sin = (rxs as f64).abs() / (lr * ls);
    if sin < 1e-3 {
        return None;
    }
    let t = vcross(qp, sv) as f64 / rxs as f64;
    let u = vcross(qp, rv) as f64 / rxs as f64;
    let side = |x: f64, l: f64| {
        let m = 12.0 * e / sin * (lq / l + x.abs() + 1.0);
        if x > m && x < 1.0 - m {
            1
        } else if x < -m || x > 1.0 + m {
            -1
        } else {
            0
        }
    };
    match (side(t, lr), side(u, ls)) {
        (-1, _) | (_, -1) => Some((false, t, u)),
        (1, 1) => Some((true, t, u)),
        _ => None,
    }
}
/// Some(hit) when the segments clearly cross, or are clearly apart
fn clear_hit(a: P, b: P, c: P, d: P, m: f64, e: f64) -> Option<Option<(Q, Q)>> {
    match clear_params(a, b, c, d, e) {
        Some((false, ..)) => return Some(None),
        Some((true, ..)) if (vcross(sub(b, a), sub(d, c)) as f64).abs() > 0.05 * dist(pf(a), pf(b)) * dist(pf(c), pf(d)) => {
            return match seg_inter(a, b, c, d) {
                Inter::Point(x, y) => Some(Some((x, y))),
                _ => None,
            };
        }
        _ => {}
    }
    let (fa, fb, fc, fd) = (pf(a), pf(b), pf(c), pf(d));
    if seg_dist(fa, fb, fc) <= m || seg_dist(fa, fb, fd) <= m || seg_dist(fc, fd, fa) <= m || seg_dist(fc, fd, fb) <= m {
        return None;
    }
    match seg_inter(a, b, c, d) {
        Inter::None => Some(None),
        Inter::Point(x, y) if (vcross(sub(b, a), sub(d, c)) as f64).abs() > 0.05 * dist(fa, fb) * dist(fc, fd) => Some(Some((x, y))),
        _ => None,
    }
}
/// coordinates whose products are rounded: radius, scale (coordinates of ordinary magnitude)
fn rounded_domain<T: Backend2>(rng: &mut Rng) -> (i64, f64, f64) {
    let r = 1i64 << rng.range(14, if T::F32 { 20 } else { 28 });
    let k = 2f64.powi(rng.range(8, if T::F32 { 24 } else { 30 }) as i32) / r as f64;
    (r, k, r as f64 * if T::F32 { 3e-4 } else { 1e-7 })
}
fn some_polyline(rng: &mut Rng, r: i64) -> Vec<P> {
    let n = rng.ur(2, 14);
    let step = *rng.pick(&[r, r / 2, r / 5]);
    let mut p = (rng.range(-r, r), rng.range(-r, r));
    (0..n)
        .map(|_| {
            let q = p;
            p = ((p.0 + rng.range(-step, step)).clamp(-r, r), (p.1 + rng.range(-step, step)).clamp(-r, r));
            q
        })
        .collect()
}
/// a direction from c which passes closely by a vertex
fn close_by(rng: &mut Rng, v: &[P], r: i64, c: P) -> P {
    let q = v[rng.us(v.len())];
    let d = r as f64 * 10f64.powf(rng.fr(-9.0, -1.0));
    let off = |rng: &mut Rng| (rng.fr(-1.0, 1.0) * d).round() as i64;
    (q.0 + off(rng) - c.0, q.1 + off(rng) - c.1)
}
fn ls_line_float<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let (r, k, m) = rounded_domain::<T>(rng);
    let v = some_polyline(rng, r);
    let rp = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let (c, mut d) = (rp(rng), rp(rng));
    if rng.chance(1, 2) {
        // towards a vertex, ending there or going on
        let w = close_by(rng, &v, r, c);
        let n = rng.range(1, 3);
        d = (c.0 + n * w.0, c.1 + n * w.1);
        if d.0.abs().max(d.1.abs()) > r {
            d = (c.0 + w.0, c.1 + w.1);
        }
    }
    o.input(|| format!("backend {} scale {} polyline {:?} line {:?}-{:?}", T::NAME, k, v, c, d));
    let Some(ex) = v.windows(2).map(|e| clear_hit(e[0], e[1], c, d, m, eps::<T>())).collect::<Option<Vec<_>>>() else {
        o.n("within_tolerance_skipped");
        return;
    };
    o.n("rounded_coordinates");
    let tol = 1280.0 * eps::<T>() * r as f64;
    let mut hh = Fnv::new();
    hh.pts(&v);
    hh.pts(&[c, d]);
    o.nontrivial(hh.0);
    let hits: Vec<(f64, f64)> = ex.iter().flatten().map(|q| (q.0.f(), q.1.f())).collect();
    let tv: Vec<T> = v.iter().map(|p| v2(*p, k)).collect();
    let line = Line2::<T>::new(v2(c, k), v2(d, k));
    let at = |p: T| (f2(p).0 / k, f2(p).1 / k);
    let single = |g: &Got, w: (f64, f64)| matches!(g, Got::Point(p) if dist(*p, w) <= tol);
    if let Some(res) = o.call("intersection", || tv.intersection(&line)) {
        let g = got(&res, k);
        let ok = match hits.first() {
            None => matches!(g, Got::None),
            Some(w) => single(&g, *w),
        };
        let _ = o.check(ok, "intersection:float", || format!("first intersection: got {:?}, exact {:?}", g, hits));
    }
    if let Some(res) = o.call("find_all_intersections", || tv.find_all_intersections(&line)) {
        let gs: Vec<Got> = res.into_iter().map(|i| got(&Some(i), k)).collect();
        let ok = gs.len() == hits.len() && gs.iter().zip(hits.iter()).all(|(g, w)| single(g, *w));
        let _ = o.check(ok, "find_all_intersections:float", || format!("got {:?}, exact {:?}", gs, hits));
    }
    if let Some((p, q)) = o.call("find_two_intersections", || tv.find_two_intersections(&line)) {
        let g: Vec<(f64, f64)> = [p, q].into_iter().flatten().map(at).collect();
        let ok = g.len() == hits.len().min(2) && g.iter().all(|p| hits.iter().any(|w| dist(*p, *w) <= tol)) && !(p.is_none() && q.is_some());
        let ok = ok && (hits.len() != 2 || dist(hits[0], hits[1]) <= 4.0 * tol || dist(g[0], g[1]) > 2.0 * tol);
        let _ = o.check(ok || hits.len() > 1 && g.len() == 1 && hits.iter().all(|w| dist(*w, hits[0]) <= 4.0 * tol), "find_two_intersections:float", || format!("got {:?}, exact {:?}", g, hits));
    }
}
pub fn case_c06(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 20000) {
        return large(Large::Probes, rng, o);
    }
    let b = rng.us(5);
    if rng.chance(1, 6) {
        dispatch2!(b, ls_line_float(rng, o));
        return;
    }
    dispatch2!(b, ls_line(rng, o));
}

// ------------------------------------------------------------------ C07
/// exact ray hit: smallest t >= 0 with origin + t*dir on the closed edge
fn ray_hit(org: P, dir: P, a: P, b: P) -> Option<Q> {
    let s = sub(b, a);
    let rxs = vcross(dir, s);
    let qp = sub(a, org);
    if rxs == 0 {
        if vcross(qp, dir) != 0 {
            return None;
        }
        let dd = vdot(dir, dir);
        let t0 = vdot(qp, dir);
        let t1 = vdot(sub(b, org), dir);
        let (lo, hi) = (t0.min(t1), t0.max(t1));
        if hi < 0 {
            return None;
        }
        return Some(Q::new(lo.max(0), dd));
    }
    let t = Q::new(vcross(qp, s), rxs);
    let u = Q::new(vcross(qp, dir), rxs);
    if t.n >= 0 && u.n >= 0 && u.n <= u.d {
        Some(t)
    } else {
        None
    }
}

fn ray_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = if T::F32 { *rng.pick(&[3, 8, 30, 250, 1000]) } else { *rng.pick(&[3, 8, 30, 250, 4000, 1 << 20]) };
    let k = seg_scale(rng, o, T::F32);
    let n = rng.ur(0, 12);
    let v = polyline(rng, n, r);
    let rp = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let org = match rng.us(4) {
        0 if !v.is_empty() => *rng.pick(&v),
        1 if v.len() > 1 => {
            // on an edge
            let i = rng.us(v.len() - 1);
            let s = sub(v[i + 1], v[i]);
            let g = (gcd(s.0 as i128, s.1 as i128) as i64).max(1);
            let t = rng.range(0, g);
            (v[i].0 + s.0 / g * t, v[i].1 + s.1 / g * t)
        }
        _ => rp(rng),
    };
    let dir = match rng.us(5) {
        0 if v.len() > 1 => {
            let i = rng.us(v.len() - 1);
            sub(v[i + 1], v[i])
        }
        1 if !v.is_empty() => sub(*rng.pick(&v), org),
        2 => *rng.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-2, 1)]),
        _ => rp(rng),
    };
    if dir == (0, 0) || dir.0.abs() > r || dir.1.abs() > r {
        return;
    }
    o.input(|| format!("backend {} scale {} polyline {:?} origin {:?} dir {:?}", T::NAME, k, v, org, dir));
    let edges: Vec<(P, P)> = v.windows(2).map(|w| (w[0], w[1])).collect();
    let tv: Vec<T> = v.iter().map(|p| v2(*p, k)).collect();
    // the length of the direction does not matter
    let mut kd = *rng.pick(&[1.0, 1.0, 1.0, 0.00390625, 9.5367431640625e-7, 1048576.0, 1073741824.0]);
    let e = 2.0 * eps::<T>();
    if rng.chance(1, 10) {
        // the smallest product that is not taken for zero
        kd = e / k / k;
    }
    if k * k * kd < e {
        kd = 1.0;
    }
    if kd != 1.0 {
        o.n("scaled_directions");
        o.input(|| format!("direction scaled by {kd}"));
    }
    let (to, td): (T, T) = (v2(org, k), v2(dir, k * kd));
    let mut hh = Fnv::new();
    hh.pts(&v);
    hh.pts(&[org, dir]);
    if !edges.is_empty() {
        o.nontrivial(hh.0);
    }
    let mut best_pos: Option<Q> = None;
    let mut on_line = false;
    let dl = (vdot(dir, dir) as f64).sqrt();
    for (i, e) in edges.iter().enumerate() {
        let deg = e.0 == e.1;
        let w = ray_hit(org, dir, e.0, e.1);
        on_line |= on_segment(e.0, e.1, org);
        if let Some(t) = w {
            o.n("edge_hits");
            if t.n > 0 && best_pos.map(|b| t < b).unwrap_or(true) {
                best_pos = Some(t);
            }
        } else {
            o.n("edge_misses");
        }
        if vcross(dir, sub(e.1, e.0)) == 0 && vcross(sub(e.0, org), dir) == 0 && !deg {
            o.n("collinear_edges");
        }
        if let Some(g) = o.call("ray_edge_intersection", || {
            let r = <Vec<T> as LineString2<T>>::ray_edge_intersection(to, td, tv[i], tv[i + 1]);
            r.map(|t| {
                let t: f64 = t.into();
                t
            })
        }) {
            let ok = match (g, w) {
                (None, None) => true,
                (Some(g), Some(w)) => (g * kd - w.f()).abs() * dl <= 32.0 * eps::<T>() * (4.0 * r as f64) && g >= 0.0,
                _ => false,
            };
            let _ = o.check(ok, "ray_edge_intersection", || format!("edge {:?}: got t = {:?}, exact {:?}", e, g, w.map(|w| w.f())));
        }
    }
    if let Some(g) = o.call("closest_ray_intersection", || tv.closest_ray_intersection(td, to).map(|p| f2(p))) {
        let g = g.map(|p| (p.0 / k, p.1 / k));
        let tol = 64.0 * eps::<T>() * (4.0 * r as f64);
        let near_hit = |p: (f64, f64)| match best_pos {
            Some(t) => dist(p, (org.0 as f64 + t.f() * dir.0 as f64, org.1 as f64 + t.f() * dir.1 as f64)) <= tol,
            None => false,
        };
        let ok = match g {
            None => best_pos.is_none(),
            Some(p) => near_hit(p) || (on_line && dist(p, pf(org)) <= tol),
        };
        o.n(if best_pos.is_some() { "rays_that_hit" } else { "rays_that_miss" });
        if on_line {
            o.n("origin_on_line_string");
        }
        let _ = o.check(ok, "closest_ray_intersection", || format!("got {:?}, exact t {:?} origin_on_line {}", g, best_pos.map(|t| t.f()), on_line));
    }
}
fn ray_float<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let (r, k, m) = rounded_domain::<T>(rng);
    let v = some_polyline(rng, r);
    let rp = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let (org, mut dir) = (rp(rng), if rng.chance(1, 2) { rp(rng) } else { (rng.range(-r / 50, r / 50), rng.range(-r / 50, r / 50)) });
    if rng.chance(1, 2) {
        dir = close_by(rng, &v, r, org);
    }
    let dl = (vdot(dir, dir) as f64).sqrt();
    if dl < r as f64 / 200.0 {
        return;
    }
    // the ray as a segment which leaves the area
    let far = (4.0 * r as f64 / dl).ceil() as i64;
    let end = (org.0 + far * dir.0, org.1 + far * dir.1);
    o.input(|| format!("backend {} scale {} polyline {:?} origin {:?} dir {:?}", T::NAME, k, v, org, dir));
    let Some(ex) = v.windows(2).map(|e| clear_hit(e[0], e[1], org, end, m, eps::<T>())).collect::<Option<Vec<_>>>() else {
        o.n("within_tolerance_skipped");
        return;
    };
    o.n("rounded_coordinates");
    let tol = 2560.0 * eps::<T>() * r as f64;
    let mut hh = Fnv::new();
    hh.pts(&v);
    hh.pts(&[org, dir]);
    o.nontrivial(hh.0);
    let tv: Vec<T> = v.iter().map(|p| v2(*p, k)).collect();
    let (to, td): (T, T) = (v2(org, k), v2(dir, k));
    let way = |q: &(Q, Q)| dist((q.0.f(), q.1.f()), pf(org));
    for (i, e) in ex.iter().enumerate() {
        if let Some(g) = o.call("ray_edge_intersection", || {
            let r = <Vec<T> as LineString2<T>>::ray_edge_intersection(to, td, tv[i], tv[i + 1]);
            r.map(|t| {
                let t: f64 = t.into();
                t
            })
        }) {
            let ok = match (g, e) {
                (None, None) => true,
                (Some(g), Some(q)) => g > 0.0 && (g * dl - way(q)).abs() <= tol,
                _ => false,
            };
            let _ = o.check(ok, "ray_edge_intersection:float", || format!("edge {i}: got t = {:?}, exact hit {:?}, |dir| {dl}", g, e.map(|q| (q.0.f(), q.1.f()))));
        }
    }
    let best = ex.iter().flatten().map(|q| (way(q), (q.0.f(), q.1.f()))).fold(None, |b: Option<(f64, (f64, f64))>, x| match b {
        Some(y) if y.0 <= x.0 => Some(y),
        _ => Some(x),
    });
    if let Some(g) = o.call("closest_ray_intersection", || tv.closest_ray_intersection(td, to).map(|p| f2(p))) {
        let g = g.map(|p| (p.0 / k, p.1 / k));
        let ok = match (g, best) {
            (None, None) => true,
            // (another hit at the same distance, but for rounding, is at the same place)
            (Some(p), Some(b)) => dist(p, b.1) <= tol,
            _ => false,
        };
        let _ = o.check(ok, "closest_ray_intersection:float", || format!("got {:?}, exact {:?}", g, best));
    }
}
pub fn case_c07(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 60000) {
        return large(Large::Probes, rng, o);
    }
    let b = rng.us(5);
    if rng.chance(1, 6) {
        dispatch2!(b, ray_float(rng, o));
        return;
    }
    dispatch2!(b, ray_case(rng, o));
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C05"))]
    Prop {
        id: "C05",
        case: case_c05,
        directed: &[],
        quick: 2_400_000,
        thorough: 96_000_000,
        threads: 0,
        rule: "segment pairs in 12 relations (crossing, T, shared end, collinear, parallel, degenerate, near miss), 8 argument orders each; every pair is non-trivial, distinct by (coordinates, backend)",
        required: &["disjoint_pairs", "single_point_pairs", "overlapping_pairs", "degenerate_pairs", "float_pairs", "float_pairs_near_an_end", "very_long_and_very_short", "near_coincident_overlaps"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C06"))]
    Prop {
        id: "C06",
        case: case_c06,
        directed: &[],
        quick: 2_400_000,
        thorough: 96_000_000,
        threads: 0,
        rule: "polylines and convex polygons x probe lines (collinear with an edge, through vertices, axis-parallel, random)",
        required: &["large_inputs", "no_hit", "one_hit", "two_hits", "many_hits", "hull_crossed_twice", "hull_touched_once", "rounded_coordinates"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C07"))]
    Prop {
        id: "C07",
        case: case_c07,
        directed: &[],
        quick: 3_000_000,
        thorough: 120_000_000,
        threads: 0,
        rule: "polylines x rays (from vertices, edges, outside; along edges, towards vertices)",
        required: &["large_inputs", "edge_hits", "edge_misses", "collinear_edges", "rays_that_hit", "rays_that_miss", "origin_on_line_string", "scaled_directions", "rounded_coordinates"],
        assumptions: &[],
    },
];

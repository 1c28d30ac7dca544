//! C01 convex hulls, C02 parallel hull, C03 point containment, C04 hull containment
use crate::core::*;
use crate::dispatch2;
use crate::exact::*;
use crate::gen::*;
use crate::p_big::{large, Large};
use crate::rng::*;
use linestring::linestring_2d::{convex_hull, LineString2};

fn radius(rng: &mut Rng, f32b: bool) -> i64 {
    if f32b {
        *rng.pick(&[4, 16, 64, 250, 1000])
    } else {
        *rng.pick(&[4, 16, 250, 4000, 1 << 20, 1 << 25])
    }
}
/// powers of two. The smallest ones keep the smallest cross product, k * k, above the absolute
/// tolerance (the machine epsilon) of the orientation tests
fn scale(rng: &mut Rng, f32b: bool) -> f64 {
    let e = match rng.us(8) {
        0..=2 => 0,
        3 => -4,
        4 => 3,
        5 => rng.range(0, if f32b { 20 } else { 100 }),
        6 => {
            if f32b {
                -11
            } else {
                -25
            }
        }
        _ => -rng.range(0, if f32b { 11 } else { 25 }),
    };
    2f64.powi(e as i32)
}

/// a cloud, or now and then a polygon of many vertices with some points in it
fn some_points(rng: &mut Rng, n: usize, r: i64, o: &mut Obs) -> Vec<P> {
    if n < 3 || !rng.chance(1, 12) {
        return cloud(rng, n, r);
    }
    let mut v = convex_polygon(rng, r);
    o.n("polygons_of_many_vertices");
    if rng.chance(1, 2) {
        for _ in 0..rng.us(n) {
            let (a, b) = (*rng.pick(&v), *rng.pick(&v));
            v.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
        }
    }
    match rng.us(3) {
        0 => rng.shuffle(&mut v),
        1 => {
            let k = rng.us(v.len());
            v.rotate_left(k);
        }
        _ => v.reverse(),
    }
    v
}

/// is `got` (closed list) exactly the hull cycle `want` (open, CCW)?
pub fn cmp_hull(got: &[P], want: &[P]) -> Result<(), String> {
    let m = want.len();
    if got.len() != m + 1 {
        return Err(format!("expected {} vertices + closing vertex, got {} points", m, got.len()));
    }
    if got[0] != got[m] {
        return Err("not closed".to_string());
    }
    let s = match want.iter().position(|p| *p == got[0]) {
        Some(s) => s,
        None => return Err(format!("{:?} is not an extreme point", got[0])),
    };
    for i in 0..m {
        if got[i] != want[(s + i) % m] {
            return Err(format!("vertex {} is {:?}, expected {:?}", i, got[i], want[(s + i) % m]));
        }
    }
    Ok(())
}

fn judge(o: &mut Obs, name: &'static str, got: Option<Vec<P>>, pts: &[P], want: &[P]) {
    let got = match got {
        Some(g) => g,
        None => {
            o.fail(format!("{name}:offgrid"), format!("{name} returned a point that is not an input point"));
            return;
        }
    };
    if want.len() >= 3 {
        let r = cmp_hull(&got, want);
        let _ = o.check(r.is_ok(), name, || format!("{name}: {}; got {:?} want cycle {:?}", r.unwrap_err(), got, want));
    } else {
        // degenerate (all points on one line): the result still consists of input
        // points and contains the extreme points
        let inp: std::collections::HashSet<P> = pts.iter().cloned().collect();
        let _ = o.check(got.iter().all(|p| inp.contains(p)), name, || format!("{name}: degenerate result {:?} has foreign points", got));
        let _ = o.check(want.iter().all(|p| got.contains(p)), name, || format!("{name}: degenerate result {:?} misses an extreme of {:?}", got, want));
        o.n("degenerate_inputs");
    }
}

#[allow(deprecated)]
/// more points than fit in 16 bits, few of them extreme
fn huge_cloud(rng: &mut Rng, r: i64, o: &mut Obs) -> Vec<P> {
    o.n("more_than_65536_points");
    let round = rng.chance(1, 2);
    let r = r.max(40);
    let n = rng.ur(65_537, 140_000);
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let p = (rng.range(-r, r), rng.range(-r, r));
        // (or in a diamond)
        if !round || p.0.abs() + p.1.abs() <= r {
            v.push(p);
        }
    }
    // the extreme points anywhere, beyond position 65535 too
    for p in [(-r - 1, rng.range(-r, r)), (r + 2, rng.range(-r, r)), (rng.range(-r, r), r + 1)] {
        let i = if rng.chance(1, 2) { rng.ur(65_536, n - 1) } else { rng.us(n) };
        v[i] = p;
    }
    v
}
fn hull_exact<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = radius(rng, T::F32);
    let k = scale(rng, T::F32);
    let n = if rng.chance(1, 20) { rng.ur(0, 2) } else { size(rng) };
    let huge = rng.chance(1, 5000);
    let mut pts = if huge { huge_cloud(rng, r, o) } else { some_points(rng, n, r, o) };
    if n > 1 && rng.chance(1, 3) {
        let f = pts[0];
        pts.push(f);
    }
    let want = hull(&pts);
    o.input(|| format!("backend {} scale {} points {:?}", T::NAME, k, pts));
    let v: Vec<T> = pts.iter().map(|p| v2(*p, k)).collect();
    if want.len() >= 3 {
        let mut h = Fnv::new();
        h.pts(&pts);
        h.str(T::NAME);
        o.nontrivial(h.0);
        o.n("nondegenerate_inputs");
        o.seen("hull_sizes", want.len() as u64);
        if pts.len() == 3 || (pts.len() == 4 && pts[0] == pts[3]) {
            o.n("triangle_inputs");
        }
        if want.len() < pts.len() {
            o.n("inputs_with_non_extreme_points");
        }
    }
    macro_rules! run {
        ($name:expr, $e:expr) => {
            if let Some(res) = o.call($name, || $e) {
                match res {
                    Ok(h) => judge(o, $name, grids(&h, k), &pts, &want),
                    Err(e) => o.fail(format!("{}:err", $name), format!("{} returned an error: {:?}", $name, e)),
                }
            }
        };
    }
    run!("graham_scan", convex_hull::graham_scan(&v));
    run!("gift_wrap", convex_hull::gift_wrap(&v));
    run!("graham_scan_wo_atan2", convex_hull::graham_scan_wo_atan2(&v));
    run!("LineString2::convex_hull", v.convex_hull());
    // indexed versions over a selection of the vertices
    let mut idx: Vec<usize> = (0..pts.len()).collect();
    match rng.us(4) {
        0 => {}
        1 => rng.shuffle(&mut idx),
        _ => {
            rng.shuffle(&mut idx);
            let m = if idx.is_empty() { 0 } else { rng.ur(idx.len() / 2, idx.len()) };
            idx.truncate(m);
        }
    }
    if idx.len() > 1 && rng.chance(1, 6) {
        // some indices more than once
        for _ in 0..rng.ur(1, 4) {
            let (i, j) = (rng.us(idx.len()), rng.us(idx.len()));
            idx.insert(j, idx[i]);
        }
        o.n("selections_with_repeated_indices");
    }
    if idx.len() > 1 && rng.chance(1, 3) {
        let f = idx[0];
        idx.push(f);
    }
    let sel: Vec<P> = idx.iter().map(|i| pts[*i]).collect();
    let wsel = hull(&sel);
    o.input(|| format!("indices {:?}", idx));
    macro_rules! runi {
        ($name:expr, $e:expr) => {
            if let Some(res) = o.call($name, || $e) {
                match res {
                    Ok(h) => {
                        if !o.check(h.iter().all(|i| idx.contains(i)), $name, || format!("{}: returned an index that was not selected: {:?}", $name, h)) {
                        } else {
                            if wsel.len() >= 3 && h.len() > 1 {
                                let _ = o.check(h[0] == h[h.len() - 1], concat!($name, ":closed"), || format!("{}: index list not closed {:?}", $name, h));
                            }
                            judge(o, $name, Some(h.iter().map(|i| pts[*i]).collect()), &sel, &wsel)
                        }
                    }
                    Err(e) => {
                        o.fail(format!("{}:err", $name), format!("{} returned an error: {:?}", $name, e));
                    }
                }
            }
        };
    }
    runi!("indexed_graham_scan", convex_hull::indexed_graham_scan(&v, &idx));
    runi!("indexed_gift_wrap", convex_hull::indexed_gift_wrap(&v, &idx));
    // the open variant, with and without a given start (the point furthest to the left)
    let close = |mut h: Vec<usize>| {
        if h.len() > 1 {
            h.push(h[0]);
        }
        h
    };
    runi!("indexed_graham_scan_no_loop", convex_hull::indexed_graham_scan_no_loop(&v, &idx, None).map(close));
    if let Some(start) = idx.iter().cloned().min_by_key(|i| pts[*i]) {
        runi!("indexed_graham_scan_no_loop(start)", convex_hull::indexed_graham_scan_no_loop(&v, &idx, Some(start)).map(close));
        o.n("given_start_points");
    }
}

/// points that are exact in the scalar type, while the products of their coordinates are not
fn float_cloud(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    match rng.us(6) {
        0 => (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r))).collect::<Vec<P>>(),
        3 => {
            // a rounded lattice: masses of almost collinear points
            let m = rng.range(3, 40);
            let mut v: Vec<P> = Vec::new();
            for i in 0..=m {
                for j in 0..=m {
                    v.push((i * r / m, j * r / m));
                }
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut v);
                v.truncate(n.max(3));
            }
            v
        }
        4 => {
            // an integer grid with an offset, as rounded by the scalar type
            let m = rng.range(1, 9);
            let (w, dx, dy) = (r as f64 / (m + 1) as f64, rng.fr(-0.5, 0.5), rng.fr(-0.5, 0.5));
            (0..n).map(|_| (((rng.range(-m, m) as f64 + dx) * w) as i64, ((rng.range(-m, m) as f64 + dy) * w) as i64)).collect()
        }
        5 => {
            // points on the sides of a polygon, up to rounding
            let m = rng.ur(3, 6);
            let c: Vec<P> = (0..m).map(|_| (rng.range(-r, r), rng.range(-r, r))).collect();
            (0..n)
                .map(|_| {
                    let (i, t) = (rng.us(m), rng.fr(0.0, 1.0));
                    let (a, b) = (c[i], c[(i + 1) % m]);
                    (a.0 + ((b.0 - a.0) as f64 * t) as i64, a.1 + ((b.1 - a.1) as f64 * t) as i64)
                })
                .collect()
        }
        1 => (0..n)
            .map(|_| {
                let a = rng.fr(0.0, std::f64::consts::TAU);
                ((a.cos() * r as f64) as i64, (a.sin() * r as f64) as i64)
            })
            .collect(),
        _ => {
            let mut p = (0i64, 0i64);
            (0..n)
                .map(|_| {
                    p = ((p.0 + rng.range(-r / 16, r / 16)).clamp(-r, r), (p.1 + rng.range(-r / 16, r / 16)).clamp(-r, r));
                    p
                })
                .collect()
        }
    }
}
/// generic (non-grid-exact) coordinates: containment and convexity within rounding
fn hull_float<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let n = if rng.chance(1, 12) { rng.ur(300, 2000) } else { size(rng) };
    // 22 significant bits: exactly representable in f32, products are not
    let r: i64 = if T::F32 { 1 << 21 } else { 1 << 40 };
    let k = 1.0 / 1024.0;
    let pts = float_cloud(rng, n, r);
    let want = hull(&pts);
    if want.len() < 3 {
        return;
    }
    o.input(|| format!("backend {} scale {} points {:?}", T::NAME, k, pts));
    o.n("float_inputs");
    let mut hh = Fnv::new();
    hh.pts(&pts);
    o.nontrivial(hh.0);
    let v: Vec<T> = pts.iter().map(|p| v2(*p, k)).collect();
    let tol = r as f64 * if T::F32 { 3e-6 } else { 1e-14 };
    let inp: std::collections::HashSet<P> = pts.iter().cloned().collect();
    let idx: Vec<usize> = (0..pts.len()).collect();
    let mut results: Vec<(&'static str, Vec<P>)> = Vec::new();
    if let Some(Ok(h)) = o.call("graham_scan", || convex_hull::graham_scan(&v)) {
        results.push(("graham_scan", grids(&h, k).unwrap_or_default()));
    }
    if let Some(Ok(h)) = o.call("gift_wrap", || convex_hull::gift_wrap(&v)) {
        results.push(("gift_wrap", grids(&h, k).unwrap_or_default()));
    }
    if let Some(Ok(h)) = o.call("indexed_graham_scan", || convex_hull::indexed_graham_scan(&v, &idx)) {
        results.push(("indexed_graham_scan", h.iter().map(|i| pts[*i]).collect()));
    }
    if let Some(Ok(h)) = o.call("indexed_gift_wrap", || convex_hull::indexed_gift_wrap(&v, &idx)) {
        results.push(("indexed_gift_wrap", h.iter().map(|i| pts[*i]).collect()));
    }
    #[allow(deprecated)]
    if let Some(Ok(h)) = o.call("graham_scan_wo_atan2", || convex_hull::graham_scan_wo_atan2(&v)) {
        results.push(("graham_scan_wo_atan2", grids(&h, k).unwrap_or_default()));
    }
    let _ = o.check(o.failed() || results.len() == 5, "float:err", || "a hull function returned Err on finite input".to_string());
    if !is_wide(&want, tol) {
        return;
    }
    o.n("float_hulls_judged");
    for (name, h) in results {
        let e = float_hull_error(&h, &pts, &inp, tol);
        let _ = o.check(e.is_none(), name, || format!("{name}: {}", e.unwrap()));
    }
}

/// distance between a point and a segment
fn seg_dist(a: P, b: P, p: P) -> f64 {
    let l2 = d2(a, b) as f64;
    let dot = (b.0 - a.0) as f64 * (p.0 - a.0) as f64 + (b.1 - a.1) as f64 * (p.1 - a.1) as f64;
    if l2 == 0.0 || dot <= 0.0 {
        (d2(a, p) as f64).sqrt()
    } else if dot >= l2 {
        (d2(b, p) as f64).sqrt()
    } else {
        (cross(a, b, p) as f64).abs() / l2.sqrt()
    }
}
/// is the winding number of a closed polygon around a point positive?
fn winds_around(h: &[P], p: P) -> bool {
    let mut n = 0;
    for e in h.windows(2) {
        if e[0].1 <= p.1 && e[1].1 > p.1 && cross(e[0], e[1], p) > 0 {
            n += 1;
        } else if e[0].1 > p.1 && e[1].1 <= p.1 && cross(e[0], e[1], p) < 0 {
            n -= 1;
        }
    }
    n > 0
}
/// what is wrong with a hull of points whose orientation is subject to rounding
fn float_hull_error(h: &[P], pts: &[P], inp: &std::collections::HashSet<P>, tol: f64) -> Option<String> {
    if h.len() < 3 || h[0] != h[h.len() - 1] {
        return Some(format!("hull of {} points not closed: {:?}", pts.len(), h));
    }
    if !h.iter().all(|p| inp.contains(p)) {
        return Some("hull vertex is not an input point".to_string());
    }
    // no vertex points inwards
    for w in 0..h.len() - 1 {
        let (a, b, c) = (h[if w == 0 { h.len() - 2 } else { w - 1 }], h[w], h[w + 1]);
        if cross(a, b, c) < 0 {
            let d = seg_dist(a, c, b);
            if d > tol {
                return Some(format!("the hull is not convex at {b:?}, between {a:?} and {c:?}: {d} (tolerance {tol})"));
            }
        }
    }
    // (a stride for very many points and edges)
    let stride = (h.len() * pts.len() / 1_000_000_000).max(1);
    let mut outside = 0u64;
    for (n, e) in h.windows(2).enumerate() {
        let len = (d2(e[0], e[1]) as f64).sqrt();
        if len == 0.0 {
            return Some(format!("repeated hull vertex {:?}", e[0]));
        }
        for p in pts.iter().skip(n % stride).step_by(stride) {
            let c = cross(e[0], e[1], *p) as f64 / len;
            if c < -tol {
                // to the right of the line, but the polygon may have almost parallel edges
                outside += 1;
                if outside * h.len() as u64 > 4_000_000_000 {
                    return Some(format!("{outside} times an input point lies right of an edge, as {p:?} of {e:?}"));
                }
                let d = h.windows(2).map(|e| seg_dist(e[0], e[1], *p)).fold(f64::MAX, f64::min);
                if d > tol && !winds_around(h, *p) {
                    return Some(format!("input point {:?} lies {d} outside the hull, right of edge {:?} (tolerance {tol})", p, e));
                }
            }
        }
    }
    let mut s: Vec<P> = h[1..].to_vec();
    s.sort_unstable();
    let l = s.len();
    s.dedup();
    if s.len() != l {
        return Some("a hull vertex is repeated".to_string());
    }
    // winding: the area is positive
    let area: i128 = h.windows(2).map(|e| vcross(e[0], e[1])).sum();
    if area <= 0 {
        return Some("the hull is not counter clockwise".to_string());
    }
    None
}
/// is the hull wide enough for its orientation to be certain?
fn is_wide(want: &[P], tol: f64) -> bool {
    let area: i128 = (0..want.len()).map(|i| vcross(want[i], want[(i + 1) % want.len()])).sum();
    let diam = want.iter().map(|p| d2(want[0], *p) as f64).fold(0.0, f64::max).sqrt() * 2.0;
    area as f64 > 20.0 * tol * diam
}
/// a drifting lattice (the data of the repository's test convex_hull_6)
#[allow(deprecated)]
fn directed_wo_atan2(o: &mut Obs) {
    let (mut x, mut y, sp) = (0.0f32, 0.0f32, 0.01f32);
    let mut d = sp;
    let mut v: Vec<GVec2> = Vec::new();
    for _ in 0..100 {
        for _ in 0..100 {
            v.push(GVec2::new(x, y));
            x += d;
        }
        v.push(GVec2::new(x, y));
        d = -d;
        y += sp;
    }
    o.input(|| "drifting 100 x 100 lattice of glam::Vec2, spacing 0.01".to_string());
    if let Some(r) = o.call("graham_scan_wo_atan2", || convex_hull::graham_scan_wo_atan2(&v)) {
        let _ = o.check(r.is_ok(), "float:err", || format!("{r:?}"));
    }
}

pub fn case_c01(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    if rng.chance(1, 6) {
        dispatch2!(b, hull_float(rng, o));
    } else {
        dispatch2!(b, hull_exact(rng, o));
    }
}

// ------------------------------------------------------------------ C03 / C04
/// where p is, relative to a convex hull which may have no area: 1 inside, 0 boundary, -1 outside
fn in_hull(h: &[P], p: P) -> i32 {
    match h.len() {
        0 => -1,
        1 | 2 => {
            if on_segment(h[0], h[h.len() - 1], p) {
                0
            } else {
                -1
            }
        }
        _ => in_convex(h, p),
    }
}
/// hulls without an area, in the form the hull functions return them
fn flat_hull<T: Backend2>(rng: &mut Rng, o: &mut Obs, h: &[P], r: i64, k: f64) {
    let mut closed = h.to_vec();
    if rng.chance(1, 2) {
        closed.reverse();
    }
    if !closed.is_empty() && (closed.len() > 1 || rng.chance(1, 2)) {
        closed.push(closed[0]);
    }
    let vc: Vec<T> = closed.iter().map(|p| v2(*p, k)).collect();
    o.input(|| format!("backend {} scale {} hull without area {:?}", T::NAME, k, closed));
    let mut hh = Fnv::new();
    hh.pts(&closed);
    hh.str(T::NAME);
    o.nontrivial(hh.0);
    o.n("hulls_without_area");
    for _ in 0..8 {
        let p = match (h.len(), rng.us(4)) {
            (0, _) | (_, 0) => (rng.range(-r, r), rng.range(-r, r)),
            (m, 1) => h[rng.us(m)],
            (m, _) => {
                // on the line through the end points: between them or beyond
                let (a, b) = (h[0], h[m - 1]);
                let d = sub(b, a);
                let g = (gcd(d.0 as i128, d.1 as i128) as i64).max(1);
                let t = rng.range(-2, g + 2);
                ((a.0 + d.0 / g * t).clamp(-r, r), (a.1 + d.1 / g * t).clamp(-r, r))
            }
        };
        let want = in_hull(h, p) >= 0;
        o.n(if want { "on_flat_hull_queries" } else { "off_flat_hull_queries" });
        let t: T = v2(p, k);
        if let Some(g) = o.call("contains_point_inclusive", || convex_hull::contains_point_inclusive(&vc, t)) {
            let _ = o.check(g == want, "contains_point_inclusive(no area)", || format!("contains_point_inclusive({:?}) = {g}, expected {want} for hull {:?}", p, closed));
        }
        if closed.len() != 1 {
            // a single vertex 'contains' itself
            if let Some(g) = o.call("contains_point_exclusive", || convex_hull::contains_point_exclusive(&vc, t)) {
                let _ = o.check(!g, "contains_point_exclusive(no area)", || format!("contains_point_exclusive({:?}) = true for hull {:?} without area", p, closed));
            }
            if let Some(g) = o.call("LS2::contains_point_inclusive", || vc.contains_point_inclusive(t)) {
                let _ = o.check(g == want, "LineString2::contains_point_inclusive(no area)", || format!("contains_point_inclusive({:?}) = {g}, expected {want} for hull {:?}", p, closed));
            }
            if let Some(g) = o.call("LS2::contains_point_exclusive", || vc.contains_point_exclusive(t)) {
                let _ = o.check(!g, "LineString2::contains_point_exclusive(no area)", || format!("contains_point_exclusive({:?}) = true for hull {:?} without area", p, closed));
            }
        }
    }
}
fn contain_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = radius(rng, T::F32);
    let k = scale(rng, T::F32);
    let n = size(rng);
    let pts = some_points(rng, n, r, o);
    let h = hull(&pts);
    if h.len() < 3 {
        flat_hull::<T>(rng, o, &h, r, k);
        return;
    }
    let mut closed = h.clone();
    let rot = rng.us(h.len());
    closed.rotate_left(rot);
    let open: Vec<P> = closed.clone();
    closed.push(closed[0]);
    let vc: Vec<T> = closed.iter().map(|p| v2(*p, k)).collect();
    let vo: Vec<T> = open.iter().map(|p| v2(*p, k)).collect();
    o.input(|| format!("backend {} scale {} hull {:?}", T::NAME, k, closed));
    let mut hh = Fnv::new();
    hh.pts(&closed);
    hh.str(T::NAME);
    o.nontrivial(hh.0);
    o.seen("hull_sizes", h.len() as u64);
    // query points: vertices, edge points, diagonal points, inside, outside, extensions of edges
    let mut q: Vec<P> = Vec::new();
    for _ in 0..12 {
        let i = rng.us(h.len());
        let j = rng.us(h.len());
        let m = (i + 1) % h.len();
        let p = match rng.us(8) {
            0 => h[i],
            1 => {
                // on an edge, if it has grid points; else near it
                let d = sub(h[m], h[i]);
                let g = gcd(d.0 as i128, d.1 as i128) as i64;
                let t = rng.range(0, g);
                (h[i].0 + d.0 / g * t, h[i].1 + d.1 / g * t)
            }
            2 => {
                // on a diagonal
                let d = sub(h[j], h[i]);
                let g = gcd(d.0 as i128, d.1 as i128) as i64;
                if g == 0 {
                    h[i]
                } else {
                    let t = rng.range(0, g);
                    (h[i].0 + d.0 / g * t, h[i].1 + d.1 / g * t)
                }
            }
            3 => {
                // extension of an edge
                let d = sub(h[m], h[i]);
                let g = gcd(d.0 as i128, d.1 as i128) as i64;
                let t = g + rng.range(1, 2);
                ((h[i].0 + d.0 / g * t).clamp(-r, r), (h[i].1 + d.1 / g * t).clamp(-r, r))
            }
            4 => {
                let p = h[i];
                ((p.0 + rng.range(-1, 1)).clamp(-r, r), (p.1 + rng.range(-1, 1)).clamp(-r, r))
            }
            5 => ((h[i].0 + h[j].0) / 2, (h[i].1 + h[j].1) / 2),
            6 => {
                let z = rng.us(h.len());
                ((h[i].0 + h[j].0 + h[z].0) / 3, (h[i].1 + h[j].1 + h[z].1) / 3)
            }
            _ => (rng.range(-r, r), rng.range(-r, r)),
        };
        q.push(p);
    }
    o.input(|| format!("queries {:?}", q));
    for p in q {
        let pos = in_convex(&h, p);
        o.n(match pos {
            1 => "inside_queries",
            0 => "boundary_queries",
            _ => "outside_queries",
        });
        let t: T = v2(p, k);
        let tests: [(&'static str, bool, Option<bool>); 6] = [
            ("contains_point_inclusive", pos >= 0, o.call("contains_point_inclusive", || convex_hull::contains_point_inclusive(&vc, t))),
            ("contains_point_exclusive", pos > 0, o.call("contains_point_exclusive", || convex_hull::contains_point_exclusive(&vc, t))),
            ("contains_point_inclusive(open)", pos >= 0, o.call("contains_point_inclusive", || convex_hull::contains_point_inclusive(&vo, t))),
            ("contains_point_exclusive(open)", pos > 0, o.call("contains_point_exclusive", || convex_hull::contains_point_exclusive(&vo, t))),
            ("LineString2::contains_point_inclusive", pos >= 0, o.call("LS2::contains_point_inclusive", || vc.contains_point_inclusive(t))),
            ("LineString2::contains_point_exclusive", pos > 0, o.call("LS2::contains_point_exclusive", || vc.contains_point_exclusive(t))),
        ];
        for (name, want, got) in tests {
            if let Some(g) = got {
                let _ = o.check(g == want, name, || format!("{name}({:?}) = {g}, exact position is {pos} (1 inside, 0 boundary, -1 outside) for hull {:?}", p, closed));
            }
        }
    }
}
/// coordinates whose products are rounded: points with a clear distance from the boundary are judged
fn contain_float<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let n = size(rng);
    let r: i64 = if T::F32 { 1 << 21 } else { 1 << 40 };
    let k = 1.0 / 1024.0;
    let mut h = hull(&float_cloud(rng, n, r));
    let tol = r as f64 * if T::F32 { 3e-6 } else { 1e-14 };
    if h.len() < 3 || !is_wide(&h, tol) {
        return;
    }
    let rot = rng.us(h.len());
    h.rotate_left(rot);
    let mut closed = h.clone();
    if rng.chance(1, 2) {
        closed.push(closed[0]);
    }
    let vc: Vec<T> = closed.iter().map(|p| v2(*p, k)).collect();
    o.input(|| format!("backend {} scale {} hull {:?}", T::NAME, k, closed));
    o.n("float_hulls");
    let mut hh = Fnv::new();
    hh.pts(&closed);
    o.nontrivial(hh.0);
    for _ in 0..12 {
        let (a, b, c) = (h[rng.us(h.len())], h[rng.us(h.len())], h[rng.us(h.len())]);
        let t = rng.fr(-0.2, 1.2);
        let p = match rng.us(4) {
            // on a line through two vertices, as near as rounding permits
            0 | 1 => (a.0 + ((b.0 - a.0) as f64 * t) as i64, a.1 + ((b.1 - a.1) as f64 * t) as i64),
            2 => ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3),
            _ => (rng.range(-r, r), rng.range(-r, r)),
        };
        let p = (p.0.clamp(-r, r), p.1.clamp(-r, r));
        let near = (0..h.len()).map(|i| seg_dist(h[i], h[(i + 1) % h.len()], p)).fold(f64::INFINITY, f64::min);
        if near <= tol {
            o.n("within_tolerance_skipped");
            continue;
        }
        let want = in_convex(&h, p) > 0;
        o.n(if want { "float_inside_queries" } else { "float_outside_queries" });
        let t: T = v2(p, k);
        for (name, got) in [
            ("float:contains_point_inclusive", o.call("contains_point_inclusive", || convex_hull::contains_point_inclusive(&vc, t))),
            ("float:contains_point_exclusive", o.call("contains_point_exclusive", || convex_hull::contains_point_exclusive(&vc, t))),
        ] {
            if let Some(g) = got {
                let _ = o.check(g == want, name, || format!("{name}({:?}) = {g}, expected {want}: the boundary is {near} away (in units of {k})", p));
            }
        }
    }
}
pub fn case_c03(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 20000) {
        return large(Large::Containment, rng, o);
    }
    let b = rng.us(5);
    if rng.chance(1, 6) {
        dispatch2!(b, contain_float(rng, o));
        return;
    }
    dispatch2!(b, contain_case(rng, o));
}

fn hull_in_hull<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let r = radius(rng, T::F32);
    let k = scale(rng, T::F32);
    let n = size(rng);
    let pa = some_points(rng, n, r, o);
    let a = hull(&pa);
    if a.len() < 2 {
        return;
    }
    if a.len() == 2 {
        o.n("outer_hulls_without_area");
    }
    // b: related to a in many ways
    let mut pb: Vec<P> = match rng.us(9) {
        7 | 8 => {
            // a with one vertex moved a little: in or out
            let mut s = a.clone();
            let i = rng.us(s.len());
            s[i] = ((s[i].0 + rng.range(-2, 2)).clamp(-r, r), (s[i].1 + rng.range(-2, 2)).clamp(-r, r));
            s
        }
        0 => {
            let m = rng.ur(1, 8);
            cloud(rng, m, r)
        }
        1 => a.clone(),
        2 => {
            // shrunk
            let f = rng.range(1, 4);
            let c = (a.iter().map(|p| p.0).sum::<i64>() / a.len() as i64, a.iter().map(|p| p.1).sum::<i64>() / a.len() as i64);
            a.iter().map(|p| (c.0 + (p.0 - c.0) / (f + 1), c.1 + (p.1 - c.1) / (f + 1))).collect()
        }
        3 => {
            // subset of a's vertices plus one perturbed
            let mut s: Vec<P> = a.iter().filter(|_| rng.chance(2, 3)).cloned().collect();
            if let Some(p) = s.last_mut() {
                *p = ((p.0 + rng.range(-1, 1)).clamp(-r, r), (p.1 + rng.range(-1, 1)).clamp(-r, r));
            }
            s
        }
        4 => {
            // points of the cloud itself: always inside
            let m = rng.ur(1, 20);
            (0..m).map(|_| *rng.pick(&pa)).collect()
        }
        5 => {
            // inside except one
            let m = rng.ur(3, 20);
            let mut s: Vec<P> = (0..m).map(|_| *rng.pick(&pa)).collect();
            let i = rng.us(s.len());
            s[i] = (rng.range(-r, r), rng.range(-r, r));
            s
        }
        _ => {
            let d = (rng.range(-r / 4 - 1, r / 4 + 1), rng.range(-r / 4 - 1, r / 4 + 1));
            a.iter().map(|p| ((p.0 + d.0).clamp(-r, r), (p.1 + d.1).clamp(-r, r))).collect()
        }
    };
    pb = hull(&pb);
    let mut ac = a.clone();
    let rot = rng.us(ac.len());
    ac.rotate_left(rot);
    ac.push(ac[0]);
    let mut bc = pb.clone();
    if !bc.is_empty() {
        let rot = rng.us(bc.len());
        bc.rotate_left(rot);
        if bc.len() > 1 {
            bc.push(bc[0]);
        }
    }
    let want = pb.iter().all(|p| in_hull(&a, *p) >= 0);
    o.input(|| format!("backend {} scale {} a {:?} b {:?}", T::NAME, k, ac, bc));
    let mut hh = Fnv::new();
    hh.pts(&ac);
    hh.pts(&bc);
    o.nontrivial(hh.0);
    o.n(if want { "contained_pairs" } else { "not_contained_pairs" });
    let va: Vec<T> = ac.iter().map(|p| v2(*p, k)).collect();
    let vb: Vec<T> = bc.iter().map(|p| v2(*p, k)).collect();
    if let Some(g) = o.call("contains_convex_hull", || convex_hull::contains_convex_hull(&va, &vb)) {
        let _ = o.check(g == want, "contains_convex_hull", || format!("contains_convex_hull = {g}, exact answer {want}; a {:?} b {:?}", ac, bc));
    }
    if let Some(g) = o.call_par("contains_convex_hull_par", || convex_hull::contains_convex_hull_par(&va, &vb)) {
        let _ = o.check(g == want, "contains_convex_hull_par", || format!("contains_convex_hull_par = {g}, exact answer {want}; a {:?} b {:?}", ac, bc));
    }
}
pub fn case_c04(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 20000) {
        return large(Large::Containment, rng, o);
    }
    let b = rng.us(5);
    dispatch2!(b, hull_in_hull(rng, o));
}

// ------------------------------------------------------------------ C02
pub fn pool(n: usize) -> &'static rayon::ThreadPool {
    use std::sync::OnceLock;
    static P: [OnceLock<rayon::ThreadPool>; 5] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let sizes = [1, 2, 3, 5, 8];
    let i = n % 5;
    P[i].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(sizes[i]).stack_size(16 << 20).build().expect("pool"))
}

fn par_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let exact = !rng.chance(1, 6);
    let n = match rng.us(8) {
        0 => rng.ur(3, 5),
        1..=4 => rng.ur(4, 40),
        5 | 6 => rng.ur(30, 200),
        _ => rng.ur(200, 1500),
    };
    let (pts, k) = if exact {
        let r = radius(rng, T::F32);
        let k = scale(rng, T::F32);
        (if rng.chance(1, 1500) { huge_cloud(rng, r, o) } else { some_points(rng, n, r, o) }, k)
    } else {
        let r: i64 = if T::F32 { 1 << 21 } else { 1 << 40 };
        o.n("float_inputs");
        (float_cloud(rng, n, r), 1.0 / 1024.0)
    };
    let mut idx: Vec<usize> = (0..pts.len()).collect();
    match rng.us(4) {
        0 => rng.shuffle(&mut idx),
        1 => {
            rng.shuffle(&mut idx);
            let m = rng.ur(idx.len() / 2, idx.len());
            idx.truncate(m);
        }
        _ => {}
    }
    if idx.len() > 1 && rng.chance(1, 6) {
        // some indices more than once
        for _ in 0..rng.ur(1, 4) {
            let (i, j) = (rng.us(idx.len()), rng.us(idx.len()));
            idx.insert(j, idx[i]);
        }
        o.n("selections_with_repeated_indices");
    }
    if idx.len() > 1 && rng.chance(1, 3) {
        let f = idx[0];
        idx.push(f);
    }
    let sel: Vec<P> = idx.iter().map(|i| pts[*i]).collect();
    let want = hull(&sel);
    let v: Vec<T> = pts.iter().map(|p| v2(*p, k)).collect();
    o.input(|| format!("backend {} scale {} points {:?} indices {:?}", T::NAME, k, pts, idx));
    if want.len() >= 3 {
        let mut h = Fnv::new();
        h.pts(&sel);
        o.nontrivial(h.0);
    }
    let tol = 2097152.0 * if T::F32 { 1e-6 } else { 0.0 } + if T::F32 { 0.0 } else { (1i64 << 40) as f64 * 1e-14 };
    let inp: std::collections::HashSet<P> = sel.iter().cloned().collect();
    let reps = rng.ur(2, 4);
    for _ in 0..reps {
        let chunk = match rng.us(4) {
            0 => rng.ur(1, 4),
            1 => rng.ur(2, 12),
            2 => rng.ur(3, n.max(4)),
            _ => n + rng.us(5) + 1,
        };
        let pi = rng.us(5);
        let tp = pool(pi);
        o.seen("chunk_sizes", chunk as u64);
        o.seen("pool_sizes", tp.current_num_threads() as u64);
        o.seen("chunks_per_hull", (idx.len() as u64 + chunk as u64 - 1) / chunk as u64);
        if idx.len() > chunk {
            o.n("multi_chunk_runs");
        }
        o.input(|| format!("chunk {} pool {}", chunk, tp.current_num_threads()));
        if let Some(res) = o.call_par("convex_hull_par", || tp.install(|| convex_hull::convex_hull_par(&v, &idx, chunk))) {
            match res {
                Err(e) => o.fail("convex_hull_par:err", format!("convex_hull_par returned an error: {e:?}")),
                Ok(h) => {
                    if !o.check(h.iter().all(|i| idx.contains(i)), "convex_hull_par", || format!("convex_hull_par: unselected index in {:?}", h)) {
                        continue;
                    }
                    let got: Vec<P> = h.iter().map(|i| pts[*i]).collect();
                    if want.len() >= 3 {
                        let _ = o.check(h.first() == h.last(), "convex_hull_par:closed", || format!("convex_hull_par(chunk {chunk}): list not closed {:?}", h));
                    }
                    if exact {
                        judge(o, "convex_hull_par", Some(got), &sel, &want);
                    } else if want.len() >= 3 && is_wide(&want, tol) {
                        let e = float_hull_error(&got, &sel, &inp, tol);
                        let _ = o.check(e.is_none(), "convex_hull_par", || format!("convex_hull_par: {}", e.unwrap()));
                    }
                }
            }
        }
        if chunk > 1 && rng.chance(1, 2) {
            let full = hull(&pts);
            if let Some(res) = o.call_par("LineString2::convex_hull_par", || tp.install(|| v.convex_hull_par(chunk))) {
                match res {
                    Err(e) => o.fail("LineString2::convex_hull_par:err", format!("error: {e:?}")),
                    Ok(h) => {
                        if exact {
                            judge(o, "LineString2::convex_hull_par", grids(&h, k), &pts, &full)
                        }
                    }
                }
            }
        }
    }
}
pub fn case_c02(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, par_case(rng, o));
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C01"))]
    Prop {
        id: "C01",
        case: case_c01,
        directed: &[directed_wo_atan2],
        quick: 120_000,
        thorough: 4_800_000,
        threads: 0,
        rule: "random integer point clouds of 12 shapes; non-trivial: at least 3 extreme points; distinct by (points, backend)",
        required: &["more_than_65536_points", "nondegenerate_inputs", "degenerate_inputs", "triangle_inputs", "float_inputs", "selections_with_repeated_indices", "given_start_points"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C02"))]
    Prop {
        id: "C02",
        case: case_c02,
        directed: &[],
        quick: 30_000,
        thorough: 1_200_000,
        threads: 2,
        rule: "random clouds x chunk sizes x rayon pool sizes; non-trivial: at least 3 extreme points",
        required: &["more_than_65536_points", "multi_chunk_runs"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C03"))]
    Prop {
        id: "C03",
        case: case_c03,
        directed: &[],
        quick: 700_000,
        thorough: 28_000_000,
        threads: 0,
        rule: "exact hulls of random clouds (any start vertex) with 12 query points each",
        required: &["large_inputs", "inside_queries", "boundary_queries", "outside_queries", "hulls_without_area", "on_flat_hull_queries", "off_flat_hull_queries"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C04"))]
    Prop {
        id: "C04",
        case: case_c04,
        directed: &[],
        quick: 900_000,
        thorough: 36_000_000,
        threads: 0,
        rule: "pairs of exact hulls with controlled relation",
        required: &["large_inputs", "contained_pairs", "not_contained_pairs", "outer_hulls_without_area"],
        assumptions: &[],
    },
];

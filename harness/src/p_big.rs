//! C29 large inputs: exact answers on a small stack, memory in proportion to input and output
use crate::core::*;
use crate::exact::*;
use crate::gen::*;
use crate::p_disc::judge_disc;
use crate::p_hull::cmp_hull;
use crate::p_misc::judge_shapes;
use crate::p_simp::{vw_reference, P3};
use crate::rng::*;
use crate::{dispatch2, dispatch3};
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Intersection, Line2, LineString2, VoronoiParabolicArc};
use linestring::linestring_3d::{save_to_obj_file, Line3, LineString3};
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};
use linestring::shape::divide_into_shapes;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use vector_traits::num_traits::AsPrimitive;
use vector_traits::HasXY;

/// instrumented code needs larger frames
/// (the limits are C29's; other properties use the large inputs for their own answers only)
static LIMITS: AtomicBool = AtomicBool::new(false);
fn stack() -> usize {
    if !LIMITS.load(Relaxed) {
        64 << 20
    } else if std::env::var_os("LSMON_SANITIZE").is_some() { 4 << 20 } else { 256 << 10 }
}
/// bytes of memory a call may have in use per element of its input and output: five to ten times
/// as much as observed
fn per_element(name: &str) -> usize {
    match name {
        "gift_wrap" | "indexed_gift_wrap" => 128,
        n if n.contains("graham_scan") => 320,
        n if n.contains("simplify_rdp") || n.contains("discretize") => 320,
        n if n.starts_with("find_") || n.starts_with("closest_") => 320,
        n if n.contains("simplify_vw") => 768,
        "divide_into_shapes" | "save_to_obj_file" => 1024,
        _ => 2048,
    }
}

fn run<R: Send>(o: &mut Obs, name: &'static str, n_in: usize, size: impl Fn(&R) -> usize, f: impl FnOnce() -> R + Send) -> Option<R> {
    let (r, peak) = o.call_small(name, stack(), f)?;
    let n = n_in + size(&r);
    o.seen("bytes_in_use_per_element", (peak / n.max(1)) as u64);
    o.seen("sizes", n_in as u64);
    if !LIMITS.load(Relaxed) {
        return Some(r);
    }
    let _ = o.check(peak <= (2 << 20) + per_element(name) * n, &format!("memory:{name}"), || format!("{name} had {peak} bytes in use for {n_in} elements of input and {} of output", n - n_in));
    Some(r)
}
fn logu(rng: &mut Rng, lo: usize, hi: usize) -> usize {
    let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
    (rng.fr(a, b).exp() as usize).clamp(lo, hi)
}
fn pool() -> &'static rayon::ThreadPool {
    use std::sync::OnceLock;
    static P: OnceLock<rayon::ThreadPool> = OnceLock::new();
    P.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(4).stack_size(stack()).build().expect("pool"))
}
fn note(o: &mut Obs, what: &'static str, n: usize, s: u64) {
    o.n(what);
    let mut h = Fnv::new();
    h.str(what);
    h.u(n as u64);
    h.u(s);
    o.nontrivial(h.0);
    o.input(|| format!("{what}: n {n} (variant {s})"));
}

// ---------------------------------------------------------------- hulls
#[allow(deprecated)]
fn hulls<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let convex = !T::F32 && rng.chance(1, 2);
    let pts: Vec<P> = if convex {
        let n = logu(rng, 500, 2500) as i64;
        let mut v: Vec<P> = (-n / 2..=n / 2).map(|x| (x, x * x)).collect();
        match rng.us(4) {
            0 => {}
            1 => v.reverse(),
            2 => rng.shuffle(&mut v),
            _ => v.iter_mut().for_each(|p| *p = (-p.1, p.0)),
        }
        v
    } else if rng.chance(1, 3) {
        // more vertices than can be counted with 16 bits, but few of them are extreme
        let n = rng.ur(66_000, 200_000);
        let (r, k) = (if T::F32 { 250 } else { 1 << 20 }, rng.us(3));
        (0..n)
            .map(|_| {
                let p = (rng.range(-r, r), rng.range(-r, r));
                match k {
                    0 if rng.chance(99, 100) => (p.0 / 4, p.1 / 4),
                    1 => {
                        // inside of a diamond
                        let s = p.0.abs() + p.1.abs();
                        if s > r { (p.0 / 2, p.1 / 2) } else { p }
                    }
                    _ => p,
                }
            })
            .collect()
    } else {
        let n = logu(rng, 2000, 30_000);
        cloud(rng, n, if T::F32 { 250 } else { 1 << 20 })
    };
    let n = pts.len();
    let want = hull(&pts);
    if want.len() < 3 {
        return;
    }
    if n > 65_536 {
        o.n("hulls_of_more_than_65536_points");
    }
    note(o, if convex { "hulls_all_extreme" } else { "hulls_of_clouds" }, n, rng.u64());
    let v: Vec<T> = pts.iter().map(|p| v2(*p, 1.0)).collect();
    let idx: Vec<usize> = (0..n).collect();
    let judge = |o: &mut Obs, name: &'static str, got: Option<Vec<P>>| {
        let why = match got {
            Some(g) => cmp_hull(&g, &want).err(),
            None => Some("returned a point that is not an input point".to_string()),
        };
        let _ = o.check(why.is_none(), name, || format!("{name} of {n} points (hull of {}): {}", want.len(), why.unwrap()));
    };
    macro_rules! go {
        ($name:expr, $e:expr) => {
            if let Some(r) = run(o, $name, n, |r: &Result<Vec<T>, String>| r.as_ref().map(|h| h.len()).unwrap_or(0), || $e.map_err(|e| format!("{e:?}"))) {
                match r {
                    Ok(h) => judge(o, $name, grids(&h, 1.0)),
                    Err(e) => o.fail(format!("{}:err", $name), e),
                }
            }
        };
    }
    macro_rules! goi {
        ($name:expr, $e:expr) => {
            if let Some(r) = run(o, $name, n, |r: &Result<Vec<usize>, String>| r.as_ref().map(|h| h.len()).unwrap_or(0), || $e.map_err(|e| format!("{e:?}"))) {
                match r {
                    Ok(h) => judge(o, $name, h.iter().map(|i| pts.get(*i).cloned()).collect()),
                    Err(e) => o.fail(format!("{}:err", $name), e),
                }
            }
        };
    }
    go!("graham_scan", ch::graham_scan(&v));
    go!("graham_scan_wo_atan2", ch::graham_scan_wo_atan2(&v));
    goi!("indexed_graham_scan", ch::indexed_graham_scan(&v, &idx));
    if n * want.len() < 30_000_000 {
        go!("gift_wrap", ch::gift_wrap(&v));
        goi!("indexed_gift_wrap", ch::indexed_gift_wrap(&v, &idx));
    }
    let chunk = match rng.us(4) {
        0 => rng.ur(1, 5),
        1 => n / 4 + 1,
        2 => n + rng.us(2),
        _ => logu(rng, 8, n),
    };
    let chunk = if convex { chunk.max(64) } else { chunk };
    if let Some(r) = o.call_par("convex_hull_par", || pool().install(|| ch::convex_hull_par(&v, &idx, chunk)).map_err(|e| format!("{e:?}"))) {
        match r {
            Ok(h) => judge(o, "convex_hull_par", h.iter().map(|i| pts.get(*i).cloned()).collect()),
            Err(e) => o.fail("convex_hull_par:err", e),
        }
    }
}

fn containment<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let huge = rng.chance(1, 5);
    let m = if huge { rng.range(66_000, 80_000) } else { logu(rng, 500, 15_000) as i64 };
    // an exact convex polygon: an arc of a parabola and the chord
    let mut h: Vec<P> = (-m / 2..=m / 2).map(|x| (x, x * x)).collect();
    let n = h.len();
    let s = rng.us(n);
    h.rotate_left(s);
    note(o, "containment", n, s as u64);
    let closed = rng.chance(1, 2);
    let mut hc = h.clone();
    if closed {
        hc.push(h[0]);
    }
    let a: Vec<T> = hc.iter().map(|p| v2(*p, 1.0)).collect();
    let top = (m / 2) * (m / 2);
    for _ in 0..40 {
        let v = h[rng.us(n)];
        let p = match rng.us(5) {
            0 => v,
            1 => (v.0 + rng.range(-1, 1), v.1 + rng.range(-1, 1)),
            2 => (v.0, rng.range(v.1, top)),
            3 => (rng.range(-m, m), top),
            _ => (rng.range(-m, m), rng.range(-1, top + 1)),
        };
        let e = in_convex(&h, p);
        let tp: T = v2(p, 1.0);
        if let Some(g) = o.call("contains_point_inclusive", || ch::contains_point_inclusive(&a, tp)) {
            let _ = o.check(g == (e >= 0), "contains_point_inclusive", || format!("{p:?} in a hull of {n} vertices starting at #{s}: {g}, exact side {e}"));
        }
        if let Some(g) = o.call("contains_point_exclusive", || ch::contains_point_exclusive(&a, tp)) {
            let _ = o.check(g == (e > 0), "contains_point_exclusive", || format!("{p:?} in a hull of {n} vertices starting at #{s}: {g}, exact side {e}"));
        }
    }
    // a part of the vertices, and one vertex outside
    let mut b: Vec<P> = h.iter().cloned().filter(|_| if huge { rng.chance(1, 500) } else { rng.chance(1, 2) }).collect();
    let out = rng.chance(1, 2);
    if out && !b.is_empty() {
        let i = rng.us(b.len());
        b.insert(i, (b[i].0, b[i].0 * b[i].0 - 1));
    }
    if b.is_empty() {
        return;
    }
    let vb: Vec<T> = b.iter().map(|p| v2(*p, 1.0)).collect();
    if let Some(g) = run(o, "contains_convex_hull", n, |_| 0, || ch::contains_convex_hull(&a, &vb)) {
        let _ = o.check(g != out, "contains_convex_hull", || format!("hull of {} in hull of {n}: {g}", b.len()));
    }
    if let Some(g) = o.call_par("contains_convex_hull_par", || pool().install(|| ch::contains_convex_hull_par(&a, &vb))) {
        let _ = o.check(g != out, "contains_convex_hull_par", || format!("hull of {} in hull of {n}: {g}", b.len()));
    }
}

// ---------------------------------------------------------------- intersections
/// a rectangular spiral, from the outside to the inside
fn spiral(turns: i64) -> Vec<P> {
    let mut v = Vec::new();
    for i in 0..turns {
        let (r, q) = (4 * (turns - i) + 4, 4 * (turns - i) + 4);
        v.push((-r, -q));
        v.push((r, -q));
        v.push((r, q));
        v.push((-r + 4, q));
        v.push((-r + 4, -q + 4));
    }
    v.dedup();
    v
}
fn self_intersection<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let (pts, want, what) = match rng.us(4) {
        0 => {
            // monotone in x, or, with more points, in y
            let up = rng.chance(1, 2);
            let n = if up { logu(rng, 1000, 90_000) } else { logu(rng, 1000, 12_000) };
            let a = *rng.pick(&[3i64, 1000]);
            let mut x = 0;
            let v: Vec<P> = (0..n)
                .map(|_| {
                    x += rng.range(1, 3);
                    let y = rng.range(-a, a);
                    if up {
                        (y, x)
                    } else {
                        (x, y)
                    }
                })
                .collect();
            (v, false, "monotone_polylines")
        }
        1 => {
            let t = logu(rng, 100, 600) as i64;
            (spiral(t), false, "spirals")
        }
        k => {
            let t = logu(rng, 100, 600) as i64;
            let mut v = spiral(t);
            // the innermost end is extended until it touches, or crosses, an outer turn
            let e = v[v.len() - 1];
            let far = rng.range(2, (t / 2).max(3));
            let cross = k == 2;
            v.push((e.0 + 2, e.1));
            let d = 4 * far + if cross { 2 } else { 0 };
            v.push((e.0 + 2, e.1 - d));
            (v, true, "spirals_with_an_intersection")
        }
    };
    note(o, what, pts.len(), rng.u64());
    let v: Vec<T> = pts.iter().map(|p| v2(*p, 1.0)).collect();
    if let Some(r) = run(o, "is_self_intersecting", v.len(), |_| 0, || v.is_self_intersecting().map_err(|e| format!("{e:?}"))) {
        let _ = o.check(r == Ok(want), "is_self_intersecting", || format!("{what} of {} points: {r:?}", v.len()));
    }
}
type Set = BTreeMap<P, BTreeSet<usize>>;
/// line sets whose intersections are known by construction: (lines, intersections, that are not only end points)
fn known_set(rng: &mut Rng) -> (Vec<(P, P)>, Set, &'static str) {
    let mut l: Vec<(P, P)> = Vec::new();
    let mut at: Set = BTreeMap::new();
    let what;
    match rng.us(5) {
        4 => {
            // many lines from (or into) one point, or through it, all met by another line
            what = "fans_crossed";
            let n = logu(rng, 20, 900) as i64;
            let h = rng.range(1, 500);
            let (m, through) = (rng.range(-n, 0), rng.chance(1, 4));
            let (cx, cy) = (rng.range(-50, 50), rng.range(-50, 50));
            let up = if rng.chance(1, 2) { 1 } else { -1 };
            let mut here = BTreeSet::new();
            l.push(((cx + m - 3, cy + up * h), (cx + m + n + 3, cy + up * h)));
            for i in m..m + n {
                let d = (i, up * h);
                let _ = here.insert(l.len());
                let _ = at.insert((cx + d.0, cy + d.1), BTreeSet::from([0, l.len()]));
                let a = if through { (cx - 2 * d.0, cy - 2 * d.1) } else { (cx, cy) };
                l.push((a, (cx + 2 * d.0, cy + 2 * d.1)));
            }
            let _ = at.insert((cx, cy), here);
        }
        3 => {
            // many lines through, into and out of one point; several such points
            what = "pencils_and_hubs";
            for c in 0..rng.us(3) + 1 {
                let n = logu(rng, 20, 900);
                let (cx, cy) = (rng.range(-50, 50), 5000 * c as i64 + rng.range(-50, 50));
                let (through, r) = (rng.us(4), 40 + n as i64 / 8);
                let mut seen = BTreeSet::new();
                let mut here = BTreeSet::new();
                while here.len() < n {
                    let d = (rng.range(-r, r), rng.range(-r, r));
                    let g = gcd(d.0.abs() as i128, d.1.abs() as i128) as i64;
                    if g == 0 {
                        continue;
                    }
                    let d = (d.0 / g, d.1 / g);
                    let both = through == 0 || through == 1 && rng.chance(1, 2);
                    if seen.contains(&d) || both && seen.contains(&(-d.0, -d.1)) {
                        continue;
                    }
                    let _ = seen.insert(d);
                    let k = rng.range(1, 1 + r / d.0.abs().max(d.1.abs()));
                    let d = (d.0 * k, d.1 * k);
                    let _ = here.insert(l.len());
                    if both {
                        let _ = seen.insert((-d.0 / k, -d.1 / k));
                        l.push(((cx - d.0, cy - d.1), (cx + d.0, cy + d.1)));
                    } else {
                        l.push(((cx, cy), (cx + d.0, cy + d.1)));
                    }
                }
                let _ = at.insert((cx, cy), here);
            }
        }
        0 => {
            what = "grids";
            let (a, b) = (logu(rng, 5, 300) as i64, 0);
            let b = (15_000 / a).clamp(2, 250) + b;
            for i in 0..a {
                l.push(((-2, 2 * i), (2 * b, 2 * i)));
            }
            for i in 0..b {
                l.push(((2 * i, -2), (2 * i, 2 * a)));
            }
            for i in 0..a {
                for j in 0..b {
                    let _ = at.insert((2 * j, 2 * i), BTreeSet::from([i as usize, (a + j) as usize]));
                }
            }
        }
        1 => {
            what = "disjoint_crosses";
            let n = if rng.chance(1, 6) { rng.range(33_000, 40_000) } else { logu(rng, 500, 3000) as i64 };
            for i in 0..n {
                let (x, y) = (rng.range(-1000, 1000), 20 * i);
                let (dx, dy) = (rng.range(1, 9), rng.range(1, 9));
                let k = l.len();
                l.push(((x - dx, y - dy), (x + dx, y + dy)));
                l.push(((x - dx, y + dy), (x + dx, y - dy)));
                let _ = at.insert((x, y), BTreeSet::from([k, k + 1]));
            }
        }
        _ => {
            what = "one_line_across_all";
            let n = logu(rng, 500, 3000) as i64;
            l.push(((-2, -1), (2 * n, n)));
            for i in 0..n {
                l.push(((2 * i, i - rng.range(1, 40)), (2 * i, i + rng.range(1, 40))));
                let _ = at.insert((2 * i, i), BTreeSet::from([0, (i + 1) as usize]));
            }
        }
    }
    // in any order and direction
    let mut perm: Vec<usize> = (0..l.len()).collect();
    rng.shuffle(&mut perm);
    let mut m = l.clone();
    for (i, j) in perm.iter().enumerate() {
        m[*j] = if rng.chance(1, 2) { l[i] } else { (l[i].1, l[i].0) };
    }
    let at = at.into_iter().map(|(p, s)| (p, s.into_iter().map(|i| perm[i]).collect())).collect();
    (m, at, what)
}
fn judge_set(o: &mut Obs, name: &str, want: &Set, got: Vec<((f64, f64), Vec<usize>)>) {
    let mut g: Set = BTreeMap::new();
    o.add("intersections_reported", got.len() as u64);
    for ((x, y), l) in &got {
        let p = (x.round() as i64, y.round() as i64);
        if !o.check((x - p.0 as f64).abs() < 1e-6 && (y - p.1 as f64).abs() < 1e-6, &format!("{name}:position"), || format!("{name}: intersection of {l:?} at ({x}, {y})")) {
            return;
        }
        g.entry(p).or_default().extend(l.iter().cloned());
    }
    let bad = want.iter().find(|(p, s)| g.get(p) != Some(s));
    let _ = o.check(bad.is_none(), name, || {
        let b = bad.unwrap();
        format!("{name}: at {:?} lines {:?} instead of {:?}", b.0, g.get(b.0), b.1)
    });
    let more = g.keys().find(|p| !want.contains_key(p));
    let _ = o.check(more.is_none(), name, || format!("{name}: no intersection at {more:?}"));
}
fn sweeps<T: Backend2>(rng: &mut Rng, o: &mut Obs, plain: bool, indexed: bool) {
    let (l, want, what) = known_set(rng);
    let n = l.len();
    note(o, what, n, rng.u64());
    let tl: Vec<Line2<T>> = l.iter().map(|l| Line2::new(v2(l.0, 1.0), v2(l.1, 1.0))).collect();
    if plain {
        let r = run(
            o,
            "IntersectionData",
            n,
            |r: &Result<Vec<((f64, f64), Vec<usize>)>, String>| r.as_ref().map(|v| v.len()).unwrap_or(0),
            || {
                let d = IntersectionData::<T>::default().with_ignore_end_point_intersections(false).and_then(|d| d.with_lines(tl.iter().cloned())).map_err(|e| format!("{e:?}"))?;
                Ok(d.compute().map_err(|e| format!("{e:?}"))?.map(|(p, l)| (f2(p), l)).collect())
            },
        );
        match r {
            Some(Ok(g)) => judge_set(o, "IntersectionData", &want, g),
            Some(Err(e)) => o.fail("IntersectionData:err", e),
            None => {}
        }
    }
    if !indexed {
        return;
    }
    // with the vertices that are equal given once, or once per line
    let shared = rng.chance(1, 2);
    let mut table: Vec<T> = Vec::new();
    let mut edges: Vec<(usize, usize)> = Vec::new();
    let mut index: BTreeMap<P, usize> = BTreeMap::new();
    for (t, p) in tl.iter().zip(&l) {
        let mut add = |p: P, t: T| match index.get(&p) {
            Some(i) if shared => *i,
            _ => {
                let _ = index.insert(p, table.len());
                table.push(t);
                table.len() - 1
            }
        };
        edges.push((add(p.0, t.start), add(p.1, t.end)));
    }
    let r = run(
        o,
        "IntersectionTester",
        2 * n,
        |r: &Result<Vec<((f64, f64), Vec<usize>)>, String>| r.as_ref().map(|v| v.len()).unwrap_or(0),
        || {
            let d = IntersectionTester::<T>::new(table).with_ignore_end_point_intersections(false).and_then(|d| d.with_edges(edges.iter())).map_err(|e| format!("{e:?}"))?;
            let (v, it) = d.compute().map_err(|e| format!("{e:?}"))?;
            Ok(it.map(|(i, l)| (f2(v[i]), l)).collect())
        },
    );
    match r {
        Some(Ok(g)) => judge_set(o, "IntersectionTester", &want, g),
        Some(Err(e)) => o.fail("IntersectionTester:err", e),
        None => {}
    }
}
fn probes<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    // every edge of a zigzag is met by a horizontal line
    let n = logu(rng, 2000, 90_000) as i64;
    note(o, "zigzags_probed", n as usize, rng.u64());
    let v: Vec<T> = (0..n).map(|i| v2((2 * i, if i % 2 == 0 { -2 } else { 2 }), 1.0)).collect();
    let line = Line2::new(v2::<T>((-4, 0), 1.0), v2::<T>((2 * n, 0), 1.0));
    if let Some(r) = run(o, "find_all_intersections", n as usize, |r: &Vec<Intersection<T>>| r.len(), || v.find_all_intersections(&line)) {
        let ok = r.len() as i64 == n - 1
            && r.iter().enumerate().all(|(i, x)| {
                let p = f2(x.single());
                (p.0 - (2 * i + 1) as f64).abs() < 0.01 && p.1.abs() < 0.01
            });
        let _ = o.check(ok, "find_all_intersections", || format!("{} intersections with {} edges, or out of place", r.len(), n - 1));
    }
    if let Some((p, q)) = run(o, "find_two_intersections", n as usize, |_| 0, || v.find_two_intersections(&line)) {
        let _ = o.check(p.is_some() && q.is_some() && p != q, "find_two_intersections", || format!("{p:?} {q:?}"));
    }
    let org: T = vf2((2 * n) as f64, 1.0);
    let dir: T = vf2(-1.0, 0.0);
    if let Some(r) = run(o, "closest_ray_intersection", n as usize, |_| 0, || v.closest_ray_intersection(dir, org)) {
        // the last edge that reaches y = 1
        let x = if n % 2 == 0 { 2.0 * n as f64 - 2.5 } else { 2.0 * n as f64 - 3.5 };
        let ok = r.map(f2).map(|p| (p.0 - x).abs() < 0.01 && (p.1 - 1.0).abs() < 0.01).unwrap_or(false);
        let _ = o.check(ok, "closest_ray_intersection", || format!("{:?} instead of x {x}", r.map(f2)));
    }
}

// ---------------------------------------------------------------- simplification
/// zigzags for which Ramer-Douglas-Peucker has to split off one point at a time
fn zigzag(rng: &mut Rng, n: usize) -> Vec<P> {
    let kind = rng.us(4);
    (0..n as i64)
        .map(|i| {
            let n = n as i64;
            let a = match kind {
                0 => n - i,
                1 => i + 1,
                2 => (n - 2 * i).abs() + 1,
                _ => n - (n - 2 * i).abs() + 1,
            };
            (i, if i % 2 == 0 { a } else { -a })
        })
        .collect()
}
/// a parabola: Ramer-Douglas-Peucker divides it in the middle, no point is on a chord of others
fn parabola(n: usize) -> Vec<P> {
    let n = n as i64;
    (0..n).map(|i| (i - n / 2, (i - n / 2) * (i - n / 2))).collect()
}
fn rdp2<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let wide = !T::F32 && rng.chance(1, 2);
    let n = if wide { rng.ur(66_000, 90_000) } else { logu(rng, 4000, 9000) };
    let p = if wide { parabola(n) } else { zigzag(rng, n) };
    note(o, if wide { "rdp_more_than_65536_points" } else { "rdp_worst_cases" }, n, rng.u64());
    let v: Vec<T> = p.iter().map(|p| v2(*p, 1.0)).collect();
    let idx: Vec<usize> = (0..n).collect();
    let (tol, keep) = if wide || rng.chance(5, 6) { (0.0, n) } else { (4.0 * n as f64, 2) };
    let t = sc::<T::Scalar>(tol);
    if let Some(r) = run(o, "simplify_rdp_2d", n, |r: &Vec<T>| r.len(), || v.simplify_rdp(t)) {
        let ok = r.len() == keep && r.first() == v.first() && r.last() == v.last() && (keep == 2 || r == v);
        let _ = o.check(ok, "simplify_rdp_2d", || format!("{} of {n} points are left at tolerance {tol}", r.len()));
    }
    if let Some(r) = run(o, "indexed_simplify_rdp_2d", n, |r: &Vec<usize>| r.len(), || indexed_simplify_rdp_2d(&v, &idx, t)) {
        let ok = r.len() == keep && r.first() == Some(&0) && r.last() == Some(&(n - 1)) && (keep == 2 || r == idx);
        let _ = o.check(ok, "indexed_simplify_rdp_2d", || format!("{} of {n} points are left at tolerance {tol}", r.len()));
    }
}
fn rdp3<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let n = logu(rng, 4000, 9000);
    let p = zigzag(rng, n);
    note(o, "rdp_worst_cases", n, rng.u64());
    let z = rng.us(3);
    let v: Vec<T> = p
        .iter()
        .map(|p| {
            let (x, y) = (p.0 as f64, p.1 as f64);
            match z {
                0 => vf3(x, y, 0.0),
                1 => vf3(y, 0.0, x),
                _ => vf3(x, y, y),
            }
        })
        .collect();
    let idx: Vec<usize> = (0..n).collect();
    let t = sc::<T::Scalar>(0.0);
    if let Some(r) = run(o, "simplify_rdp_3d", n, |r: &Vec<T>| r.len(), || v.simplify_rdp(t)) {
        let _ = o.check(r == v, "simplify_rdp_3d", || format!("{} of {n} points are left at tolerance 0", r.len()));
    }
    if let Some(r) = run(o, "indexed_simplify_rdp_3d", n, |r: &Vec<usize>| r.len(), || indexed_simplify_rdp_3d(&v, &idx, t)) {
        let _ = o.check(r == idx, "indexed_simplify_rdp_3d", || format!("{} of {n} points are left at tolerance 0", r.len()));
    }
}
fn vw2<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let n = logu(rng, 2000, 90_000);
    let r = 1i64 << 23;
    let p: Vec<P3> = (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r), 0)).collect();
    let d = rng.us(n - 4);
    note(o, "vw_large", n, d as u64);
    let v: Vec<T> = p.iter().map(|p| v2((p.0, p.1), 1.0)).collect();
    let Some(got) = run(o, "simplify_vw_2d", n, |r: &Vec<T>| r.len(), || v.simplify_vw(d)) else { return };
    if let Some(want) = vw_reference(&p, d) {
        o.n("vw_decided");
        let g: Vec<P3> = got.iter().filter_map(|q| grid(*q, 1.0)).map(|q| (q.0, q.1, 0)).collect();
        let at = g.iter().zip(want.iter()).position(|(a, b)| a != b);
        let _ = o.check(g == want, "simplify_vw_2d", || format!("{} points instead of {}, first difference at {at:?}; n {n}, to delete {d}", got.len(), want.len()));
    }
}
fn vw3<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let n = logu(rng, 2000, 90_000);
    let r = 1i64 << 20;
    let p: Vec<P3> = (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r), rng.range(-r, r))).collect();
    let d = rng.us(n - 4);
    note(o, "vw_large", n, d as u64);
    let v: Vec<T> = p.iter().map(|p| vf3(p.0 as f64, p.1 as f64, p.2 as f64)).collect();
    let Some(got) = run(o, "simplify_vw_3d", n, |r: &Vec<T>| r.len(), || v.simplify_vw(d)) else { return };
    if let Some(mut want) = vw_reference(&p, d) {
        o.n("vw_decided");
        let g: Vec<P3> = got
            .iter()
            .map(|q| {
                let q = f3(*q);
                (q.0 as i64, q.1 as i64, q.2 as i64)
            })
            .collect();
        // (the missing last vertex is the known finding of C14)
        if g.len() + 1 == want.len() {
            let _ = want.pop();
        }
        let at = g.iter().zip(want.iter()).position(|(a, b)| a != b);
        let _ = o.check(g == want, "simplify_vw_3d", || format!("{} points instead of {}, first difference at {at:?}; n {n}, to delete {d}", got.len(), want.len()));
    }
}

// ---------------------------------------------------------------- discretization
fn disc_points(rng: &mut Rng) -> (Vec<P>, f64) {
    let n = logu(rng, 2000, 90_000);
    let (rep, r) = (rng.us(3), *rng.pick(&[1i64, 100]));
    let mut v: Vec<P> = Vec::with_capacity(n);
    while v.len() < n {
        let p = (rng.range(-r, r), rng.range(-r, r));
        // long runs of the same point
        let m = match rep {
            0 => 1,
            1 => rng.ur(1, 3),
            _ => logu(rng, 1, n),
        };
        for _ in 0..m.min(n - v.len()) {
            v.push(p);
        }
    }
    (v, *rng.pick(&[0.5, 1.0, 1e9]) * r as f64)
}
fn disc2<T: Backend2>(rng: &mut Rng, o: &mut Obs)
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let (p, d) = disc_points(rng);
    note(o, "discretize_large", p.len(), rng.u64());
    let v: Vec<T> = p.iter().map(|p| v2(*p, 1.0)).collect();
    let ds = sc::<T::Scalar>(d);
    let pts: Vec<(f64, f64, f64)> = p.iter().map(|p| (p.0 as f64, p.1 as f64, 0.0)).collect();
    let up = |p: T| (f2(p).0, f2(p).1, 0.0);
    if let Some(r) = run(o, "discretize_2d", p.len(), |r: &Vec<(f64, f64, f64)>| r.len(), || v.discretize(ds).take(1_000_000).map(up).collect()) {
        judge_disc(o, "discretize_2d", &pts, d, &r, eps::<T>());
    }
}
fn disc3<T: Backend3>(rng: &mut Rng, o: &mut Obs)
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let (p, d) = disc_points(rng);
    note(o, "discretize_large", p.len(), rng.u64());
    let v: Vec<T> = p.iter().map(|p| vf3(p.0 as f64, p.1 as f64, -p.0 as f64)).collect();
    let ds = sc::<T::Scalar>(d);
    let pts: Vec<(f64, f64, f64)> = v.iter().map(|p| f3(*p)).collect();
    if let Some(r) = run(o, "discretize_3d", p.len(), |r: &Vec<(f64, f64, f64)>| r.len(), || v.discretize(ds).take(1_000_000).map(f3).collect()) {
        judge_disc(o, "discretize_3d", &pts, d, &r, eps3::<T>());
    }
}
fn arcs<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    // y = x^2/2 + 1/2 is at the same distance from (0,1) and the x axis
    let w = 64.0;
    let lo = -w + rng.range(0, 60) as f64;
    let y = |x: f64| x * x / 2.0 + 0.5;
    let flip = rng.chance(1, 2);
    let max: f64 = if T::F32 { rng.fr(0.01, 0.1) } else { (0.5f64).powf(rng.fr(14.0, 24.0)) };
    let v = |x: f64, y: f64| vf2::<T>(x, y);
    let seg = if flip { Line2::new(v(w, 0.0), v(-w, 0.0)) } else { Line2::new(v(-w, 0.0), v(w, 0.0)) };
    let (s, e) = if flip { ((w, y(w)), (lo, y(lo))) } else { ((lo, y(lo)), (w, y(w))) };
    let arc = VoronoiParabolicArc::new(seg, v(0.0, 1.0), v(s.0, s.1), v(e.0, e.1));
    let m = sc::<T::Scalar>(max);
    note(o, "arcs_with_many_points", (1.0 / max) as usize, flip as u64);
    // the chord over a width of d deviates by about d * d / 8 / sqrt(1 + x * x)
    for three in [false, true] {
        let r = if three {
            run(o, "arc.discretize_3d", 2, |r: &Vec<(f64, f64)>| r.len(), || {
                use vector_traits::GenericVector3;
                arc.discretize_3d(m).into_iter().map(|p| f2(p.to_2d())).collect()
            })
        } else {
            run(o, "arc.discretize_2d", 2, |r: &Vec<(f64, f64)>| r.len(), || arc.discretize_2d(m).into_iter().map(f2).collect())
        };
        let Some(r) = r else { continue };
        o.add("arc_points", r.len() as u64);
        let tol = 200.0 * eps::<T>() * 4096.0;
        let ok = r.first() == Some(&s) && r.last() == Some(&e);
        let _ = o.check(ok, "arc:ends", || format!("{:?} {:?} instead of {s:?} {e:?}", r.first(), r.last()));
        let ok = r.windows(2).all(|q| if flip { q[1].0 < q[0].0 + tol } else { q[1].0 > q[0].0 - tol });
        let _ = o.check(ok, "arc:order", || format!("max_dist {max}: points out of order"));
        let off = r.iter().find(|p| (p.1 - y(p.0)).abs() > tol * 64.0);
        let _ = o.check(off.is_none(), "arc:parabola", || format!("max_dist {max}: {off:?} is not on the parabola"));
        // the deviation of the chord is largest half way
        let dev = |a: f64, b: f64| (b - a).powi(2) / 8.0 / (1.0 + ((a + b) / 2.0).powi(2)).sqrt();
        let far = r.windows(2).map(|q| dev(q[0].0, q[1].0)).fold(0.0, f64::max);
        let _ = o.check(far <= max * 1.001 + tol, "arc:deviation", || format!("deviation {far} at max_dist {max}"));
        let near = r.windows(3).map(|q| dev(q[0].0, q[2].0)).fold(f64::MAX, f64::min);
        let _ = o.check(r.len() < 3 || near > max / 16.0 - tol, "arc:too_many", || format!("three consecutive points deviate by only {near} at max_dist {max}"));
    }
}

// ---------------------------------------------------------------- shapes, files
fn shapes(rng: &mut Rng, o: &mut Obs) {
    let n = logu(rng, 5000, 100_000);
    let mut e: Vec<(usize, usize)> = Vec::with_capacity(n);
    let kind = rng.us(6);
    let m = match kind {
        0 => {
            (0..n - 1).for_each(|i| e.push((i, i + 1)));
            n
        }
        1 => {
            (0..n).for_each(|i| e.push((i, (i + 1) % n)));
            n
        }
        2 => {
            (1..n).for_each(|i| e.push((0, i)));
            n
        }
        3 => {
            // many small rings, some of them joined
            let k = rng.ur(3, 6);
            let m = n / k;
            for r in 0..m {
                (0..k).for_each(|i| e.push((r * k + i, r * k + (i + 1) % k)));
                if r > 0 && rng.chance(1, 3) {
                    e.push((r * k, (r - 1) * k));
                }
            }
            m * k
        }
        4 => {
            // a comb
            let m = n / 2;
            for i in 0..m {
                if i + 1 < m {
                    e.push((2 * i, 2 * i + 2));
                }
                e.push((2 * i, 2 * i + 1));
            }
            2 * m
        }
        _ => {
            // a grid
            let w = (n as f64).sqrt() as usize;
            for i in 0..w {
                for j in 0..w {
                    if i + 1 < w {
                        e.push((i * w + j, i * w + j + w));
                    }
                    if j + 1 < w {
                        e.push((i * w + j, i * w + j + 1));
                    }
                }
            }
            w * w
        }
    };
    note(o, "shapes_large", n, kind as u64);
    if rng.chance(1, 2) {
        let mut p: Vec<usize> = (0..m).collect();
        rng.shuffle(&mut p);
        e.iter_mut().for_each(|x| *x = (p[x.0], p[x.1]));
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut e);
    }
    let ind: Vec<usize> = e.iter().flat_map(|x| if rng.chance(1, 2) { [x.0, x.1] } else { [x.1, x.0] }).collect();
    let r = run(o, "divide_into_shapes", ind.len(), |_| 0, || {
        let (s, v) = divide_into_shapes(&ind);
        (s, v.iter().collect::<Vec<bool>>())
    });
    if let Some((s, bits)) = r {
        judge_shapes(o, &ind, &s, &bits);
    }
}
static FILE_NO: AtomicU64 = AtomicU64::new(0);
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("out.obj"));
        let _ = std::fs::remove_dir(&self.0);
    }
}
fn obj<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    plain_zeros();
    let d = std::env::temp_dir().join(format!("lsmon-big-{}-{}", std::process::id(), FILE_NO.fetch_add(1, Relaxed)));
    if std::fs::create_dir(&d).is_err() {
        panic!("scratch directory");
    }
    let d = Scratch(d);
    let path = d.0.join("out.obj");
    let n = if rng.chance(1, 3) { rng.ur(36_000, 45_000) } else { logu(rng, 2000, 20_000) };
    let r = *rng.pick(&[3i64, 1000, 1000, 1000]);
    note(o, "obj_large", n, r as u64);
    if n > 33_000 && r > 3 {
        o.n("obj_more_than_65536_vertices");
    }
    let mut pt = || [rng.range(-r, r), rng.range(-r, r), rng.range(-r, r)];
    let lines: Vec<([i64; 3], [i64; 3])> = (0..n).map(|_| (pt(), pt())).collect();
    let m = |p: [i64; 3]| vf3::<T>(p[0] as f64, p[1] as f64, p[2] as f64);
    // in one group, or in many of which some are empty
    let mut tl: Vec<Vec<Line3<T>>> = vec![Vec::new()];
    let every = *rng.pick(&[0usize, 3, 40, 2000]);
    for l in &lines {
        while every > 0 && rng.us(every) == 0 {
            tl.push(Vec::new());
        }
        tl.last_mut().unwrap().push(Line3::new(m(l.0), m(l.1)));
    }
    if tl.len() > 300 {
        o.n("obj_more_than_300_groups");
    }
    match run(o, "save_to_obj_file", 2 * n, |_| 0, || save_to_obj_file(&path, "big", &tl).map_err(|e| format!("{e:?}"))) {
        Some(Ok(())) => {}
        Some(Err(e)) => {
            o.fail("obj:err", e);
            return;
        }
        None => return,
    }
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let mut vs: Vec<[i64; 3]> = Vec::new();
    let mut ls: Vec<(usize, usize)> = Vec::new();
    for rec in text.lines() {
        let w: Vec<&str> = rec.split('#').next().unwrap_or("").split_whitespace().collect();
        match w.as_slice() {
            ["v", x, y, z] => vs.push([x, y, z].map(|s| s.parse::<f64>().map(|v| v as i64).unwrap_or(i64::MAX))),
            ["l", a, b] => ls.push((a.parse().unwrap_or(0), b.parse().unwrap_or(0))),
            _ => {}
        }
    }
    let got: Option<Vec<([i64; 3], [i64; 3])>> = ls.iter().map(|(a, b)| Some((*vs.get(a.checked_sub(1)?)?, *vs.get(b.checked_sub(1)?)?))).collect();
    let _ = o.check(got.as_ref() == Some(&lines), "obj:lines", || format!("{} v records and {} l records do not reproduce the {n} lines", vs.len(), ls.len()));
    let distinct: BTreeSet<[i64; 3]> = vs.iter().cloned().collect();
    let _ = o.check(distinct.len() == vs.len(), "obj:duplicate_vertex", || format!("{} v records for {} vertices", vs.len(), distinct.len()));
}

/// The large inputs of C29 for the property whose answers they check
pub enum Large {
    Containment,
    SelfIntersection,
    Sweep,
    IndexedSweep,
    Probes,
    Shapes,
    Obj,
}
pub fn large(what: Large, rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    let d = *rng.pick(&[1usize, 3]);
    o.n("large_inputs");
    match what {
        Large::Containment => dispatch2!(d, containment(rng, o)),
        Large::SelfIntersection => dispatch2!(b, self_intersection(rng, o)),
        Large::Sweep => dispatch2!(d, sweeps(rng, o, true, false)),
        Large::IndexedSweep => dispatch2!(d, sweeps(rng, o, false, true)),
        Large::Probes => dispatch2!(b, probes(rng, o)),
        Large::Shapes => shapes(rng, o),
        Large::Obj => dispatch3!(b, obj(rng, o)),
    }
}

pub fn case_c29(rng: &mut Rng, o: &mut Obs) {
    LIMITS.store(true, Relaxed);
    let b = rng.us(5);
    let d = *rng.pick(&[1usize, 3]);
    // (the known results of some workloads are exact in 64 bit arithmetic only)
    match rng.us(14) {
        0 | 1 => dispatch2!(b, hulls(rng, o)),
        2 => dispatch2!(d, containment(rng, o)),
        3 => dispatch2!(b, self_intersection(rng, o)),
        4 | 5 => dispatch2!(d, sweeps(rng, o, true, true)),
        6 => dispatch2!(b, probes(rng, o)),
        7 => dispatch2!(b, rdp2(rng, o)),
        8 => dispatch3!(b, rdp3(rng, o)),
        9 => {
            if rng.chance(1, 2) {
                dispatch2!(d, vw2(rng, o))
            } else {
                dispatch3!(d, vw3(rng, o))
            }
        }
        10 => {
            if rng.chance(1, 2) {
                dispatch2!(b, disc2(rng, o))
            } else {
                dispatch3!(b, disc3(rng, o))
            }
        }
        11 => dispatch2!(b, arcs(rng, o)),
        12 => shapes(rng, o),
        _ => dispatch3!(b, obj(rng, o)),
    }
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C29"))]
    Prop {
        id: "C29",
        case: case_c29,
        directed: &[],
        quick: 700,
        thorough: 60_000,
        threads: 8,
        rule: "inputs of 500 to 100000 elements, many of them the worst case of the algorithm, with answers known by construction or from an exact reference; distinct inputs",
        required: &[
            "hulls_all_extreme",
            "hulls_of_clouds",
            "containment",
            "monotone_polylines",
            "spirals",
            "spirals_with_an_intersection",
            "grids",
            "disjoint_crosses",
            "one_line_across_all",
            "zigzags_probed",
            "rdp_worst_cases",
            "vw_decided",
            "discretize_large",
            "arcs_with_many_points",
            "shapes_large",
            "obj_large",
            "obj_more_than_65536_vertices",
            "hulls_of_more_than_65536_points",
            "rdp_more_than_65536_points",
        ],
        assumptions: &["library code runs on threads with a stack of 256 KiB; the rayon pool has stacks of the same size"],
    },
];

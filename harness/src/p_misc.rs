//! C20 shapes from edges, C21 obj files, C25 non-finite input, C27 orientation predicates,
//! C28 text form
use crate::core::*;
use crate::exact::{cross, P};
use crate::gen::*;
use crate::p_big::{large, Large};
use crate::rng::*;
use crate::{dispatch2, dispatch3};
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Aabb2, Line2, LineString2};
use linestring::linestring_3d::{save_to_obj_file, Line3};
use linestring::shape::divide_into_shapes;
use linestring::LinestringError;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------------------ C20
fn edge_set(rng: &mut Rng) -> Vec<(usize, usize)> {
    let mut e: Vec<(usize, usize)> = Vec::new();
    let pieces = rng.ur(1, 4);
    let mut base = 0usize;
    let gap = rng.us(3);
    for _ in 0..pieces {
        let n = rng.ur(2, 9);
        let b = base;
        match rng.us(8) {
            0 => (0..n - 1).for_each(|i| e.push((b + i, b + i + 1))),
            1 if n > 2 => (0..n).for_each(|i| e.push((b + i, b + (i + 1) % n))),
            2 => (1..n).for_each(|i| e.push((b, b + i))),
            3 => {
                // loops through a common vertex
                let k = rng.ur(1, 3);
                let mut next = b + 1;
                for _ in 0..k {
                    let m = rng.ur(2, 4);
                    let mut prev = b;
                    for _ in 0..m {
                        e.push((prev, next));
                        prev = next;
                        next += 1;
                    }
                    e.push((prev, b));
                }
            }
            4 => {
                // a loop with a tail
                let m = rng.ur(3, 5);
                (0..m).for_each(|i| e.push((b + i, b + (i + 1) % m)));
                e.push((b, b + m));
                e.push((b + m, b + m + 1));
            }
            5 => {
                // parallel paths between two vertices
                let k = rng.ur(2, 4);
                let mut next = b + 2;
                for _ in 0..k {
                    let m = rng.us(3);
                    let mut prev = b;
                    for _ in 0..m {
                        e.push((prev, next));
                        prev = next;
                        next += 1;
                    }
                    e.push((prev, b + 1));
                }
            }
            6 => {
                let (w, h) = (rng.ur(2, 3), rng.ur(2, 3));
                for y in 0..h {
                    for x in 0..w {
                        let i = b + y * w + x;
                        if x + 1 < w {
                            e.push((i, i + 1));
                        }
                        if y + 1 < h {
                            e.push((i, i + w));
                        }
                    }
                }
            }
            _ => {
                let m = rng.ur(1, 14);
                for _ in 0..m {
                    let (x, y) = (rng.us(n), rng.us(n));
                    if x != y {
                        e.push((b + x, b + y));
                    }
                }
            }
        }
        base = e.iter().map(|x| x.0.max(x.1) + 1).max().unwrap_or(0) + if gap == 2 { rng.us(4) } else { 0 };
        if rng.chance(1, 6) {
            base = base.saturating_sub(1); // pieces touch
        }
    }
    // duplicates
    if rng.chance(1, 2) && !e.is_empty() {
        for _ in 0..rng.us(5) {
            let x = *rng.pick(&e);
            e.push(x);
        }
    }
    // vertex numbers in any order
    let n = base + rng.us(2) * rng.us(70);
    if rng.chance(2, 3) && n > 0 {
        let mut p: Vec<usize> = (0..n.max(base + 1)).collect();
        rng.shuffle(&mut p);
        e.iter_mut().for_each(|x| *x = (p[x.0], p[x.1]));
    }
    if rng.chance(2, 3) {
        rng.shuffle(&mut e);
    }
    e.iter_mut().for_each(|x| {
        if rng.chance(1, 2) {
            *x = (x.1, x.0)
        }
    });
    e
}

pub fn judge_shapes(o: &mut Obs, ind: &[usize], shapes: &[Vec<usize>], bits: &[bool]) {
    let und = |a: usize, b: usize| (a.min(b), a.max(b));
    let want: BTreeSet<(usize, usize)> = ind.chunks_exact(2).map(|c| und(c[0], c[1])).collect();
    let mut nb: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for e in &want {
        let _ = nb.entry(e.0).or_default().insert(e.1);
        let _ = nb.entry(e.1).or_default().insert(e.0);
    }
    let deg = |v: usize| nb.get(&v).map(|s| s.len()).unwrap_or(0);
    let mut got: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for s in shapes {
        if !o.check(s.len() >= 2, "shapes:short", || format!("a shape without an edge {s:?}; indices {ind:?} shapes {shapes:?}")) {
            return;
        }
        for w in s.windows(2) {
            *got.entry(und(w[0], w[1])).or_insert(0) += 1;
        }
        o.n("shapes");
        let (f, l) = (s[0], s[s.len() - 1]);
        let ring = f == l && deg(f) == 2;
        if ring {
            o.n("rings");
        } else if f == l {
            o.n("loops_from_a_junction");
        }
        for v in &s[1..s.len() - 1] {
            let _ = o.check(deg(*v) == 2, "shapes:interior", || format!("vertex {v} inside of shape {s:?} has {} neighbours; indices {ind:?}", deg(*v)));
        }
        if !ring {
            let ok = deg(f) != 2 && deg(l) != 2;
            let _ = o.check(ok, "shapes:ends", || format!("shape {s:?} is not as long as possible: its ends have {} and {} neighbours; indices {ind:?} shapes {shapes:?}", deg(f), deg(l)));
        }
    }
    let dup = got.iter().find(|x| *x.1 > 1);
    let _ = o.check(dup.is_none(), "shapes:duplicate", || format!("edge {dup:?} is used more than once; indices {ind:?} shapes {shapes:?}"));
    let g: BTreeSet<(usize, usize)> = got.keys().cloned().collect();
    let _ = o.check(g == want, "shapes:edges", || {
        format!("missing edges {:?}, invented edges {:?}; indices {ind:?} shapes {shapes:?}", want.difference(&g).collect::<Vec<_>>(), g.difference(&want).collect::<Vec<_>>())
    });
    if !want.is_empty() {
        let max = want.iter().map(|e| e.1).max().unwrap_or(0);
        let _ = o.check(bits.len() == max + 1, "shapes:vob_len", || format!("{} flags for {} vertices", bits.len(), max + 1));
        for (i, b) in bits.iter().enumerate() {
            let _ = o.check(*b == (deg(i) == 2), "shapes:vob", || format!("flag of vertex {i} with {} neighbours is {b}; indices {ind:?}", deg(i)));
        }
    }
    for (_, s) in nb {
        match s.len() {
            1 => o.n("end_vertices"),
            2 => o.n("through_vertices"),
            _ => o.n("junctions"),
        }
    }
}
pub fn case_c20(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 20000) {
        return large(Large::Shapes, rng, o);
    }
    let mut e = edge_set(rng);
    if rng.chance(1, 200) {
        e.clear();
    }
    let mut ind: Vec<usize> = e.iter().flat_map(|x| [x.0, x.1]).collect();
    if rng.chance(1, 10) {
        ind.push(rng.us(5)); // half an edge
        o.n("odd_number_of_indices");
    }
    o.input(|| format!("indices {ind:?}"));
    let mut h = Fnv::new();
    ind.iter().for_each(|i| h.u(*i as u64));
    if ind.len() > 2 {
        o.nontrivial(h.0);
    }
    if let Some((s, v)) = o.call("divide_into_shapes", || divide_into_shapes(&ind)) {
        let bits: Vec<bool> = v.iter().collect();
        judge_shapes(o, &ind, &s, &bits);
    }
}

// ------------------------------------------------------------------ C21
static FILE_NO: AtomicU64 = AtomicU64::new(0);
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("out.obj"));
        let _ = std::fs::remove_dir(&self.0);
    }
}
fn obj_case<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    plain_zeros();
    let d = std::env::temp_dir().join(format!("lsmon-obj-{}-{}", std::process::id(), FILE_NO.fetch_add(1, Relaxed)));
    if std::fs::create_dir(&d).is_err() {
        panic!("scratch directory");
    }
    let d = Scratch(d);
    let path = d.0.join("out.obj");
    let groups = rng.us(4);
    let pool: Vec<[f64; 3]> = (0..rng.ur(1, 12))
        .map(|_| {
            let mut c = || match rng.us(8) {
                0 => 0.0,
                1 => -0.0,
                2 => rng.range(-3, 3) as f64,
                3 => rng.fr(-1.0, 1.0) * 1e30,
                4 => rng.fr(-1.0, 1.0) * 1e-30,
                5 => rng.fr(0.99, 1.01),
                _ => rng.fr(-1000.0, 1000.0),
            };
            [c(), c(), c()]
        })
        .collect();
    let pool: Vec<[f64; 3]> = pool.into_iter().map(|p| if T::F32 { [p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64] } else { p }).collect();
    let mut pool = pool;
    // two vertices that are hard to tell apart
    let p = pool[0];
    let next = |x: f64| if T::F32 { f32::from_bits((x as f32).to_bits() + 1) as f64 } else { f64::from_bits(x.to_bits() + 1) };
    pool.push([next(p[0]), p[1], p[2]]);
    let lines: Vec<Vec<([f64; 3], [f64; 3])>> = (0..groups).map(|_| (0..rng.us(6)).map(|_| (*rng.pick(&pool), *rng.pick(&pool))).collect()).collect();
    let m = |p: [f64; 3]| vf3::<T>(p[0], p[1], p[2]);
    let tl: Vec<Vec<Line3<T>>> = lines.iter().map(|g| g.iter().map(|l| Line3::new(m(l.0), m(l.1))).collect()).collect();
    let name = *rng.pick(&["object", "", "a name with spaces", "v 1 2 3", "å#1"]);
    let old = rng.chance(1, 4);
    if old {
        let _ = std::fs::write(&path, "old content\n".repeat(400));
        o.n("existing_files_replaced");
    }
    o.input(|| format!("backend {} name {name:?} lines {lines:?}", T::NAME));
    let Some(r) = o.call("save_to_obj_file", || save_to_obj_file(&path, name, &tl)) else { return };
    if let Err(e) = r {
        o.fail("obj:err", format!("{e:?}"));
        return;
    }
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => {
            o.fail("obj:unreadable", format!("{e:?}"));
            return;
        }
    };
    let mut h = Fnv::new();
    h.str(&text);
    let flat: Vec<([f64; 3], [f64; 3])> = lines.iter().flatten().cloned().collect();
    if !flat.is_empty() {
        o.nontrivial(h.0);
    }
    let mut it = text.lines();
    let first = it.next();
    let _ = o.check(first == Some(format!("o {name}").as_str()), "obj:name", || format!("first record {first:?}, name {name:?}"));
    let mut vs: Vec<[f64; 3]> = Vec::new();
    let mut ls: Vec<(usize, usize)> = Vec::new();
    let bits = |p: &[f64; 3]| [p[0].to_bits(), p[1].to_bits(), p[2].to_bits()];
    for rec in it {
        let body = rec.split('#').next().unwrap_or("");
        let w: Vec<&str> = body.split_whitespace().collect();
        match w.as_slice() {
            [] => {}
            ["v", x, y, z] => {
                // as read by a program using the same type of scalars
                let rd = |s: &str| if T::F32 { s.parse::<f32>().ok().map(|x| x as f64) } else { s.parse::<f64>().ok() };
                match (rd(x), rd(y), rd(z)) {
                    (Some(x), Some(y), Some(z)) => vs.push([x, y, z]),
                    _ => {
                        o.fail("obj:number", format!("record {rec:?}"));
                        return;
                    }
                }
            }
            ["l", a, b] => match (a.parse::<usize>(), b.parse::<usize>()) {
                (Ok(a), Ok(b)) => ls.push((a, b)),
                _ => {
                    o.fail("obj:index", format!("record {rec:?}"));
                    return;
                }
            },
            _ => {
                o.fail("obj:record", format!("unexpected record {rec:?}"));
                return;
            }
        }
    }
    o.add("records", (vs.len() + ls.len()) as u64);
    let used: BTreeSet<[u64; 3]> = flat.iter().flat_map(|l| [bits(&l.0), bits(&l.1)]).collect();
    let written: BTreeSet<[u64; 3]> = vs.iter().map(bits).collect();
    let _ = o.check(written.len() == vs.len(), "obj:duplicate_vertex", || format!("a vertex is written more than once; {text}"));
    let _ = o.check(written == used, "obj:vertices", || format!("the vertices differ from those of the lines; {text}"));
    if vs.len() < 2 * flat.len() {
        o.n("files_with_shared_vertices");
    }
    let got: Option<Vec<([u64; 3], [u64; 3])>> = ls.iter().map(|(a, b)| Some((bits(vs.get(a.checked_sub(1)?)?), bits(vs.get(b.checked_sub(1)?)?)))).collect();
    let want: Vec<([u64; 3], [u64; 3])> = flat.iter().map(|l| (bits(&l.0), bits(&l.1))).collect();
    let _ = o.check(got.as_ref() == Some(&want), "obj:lines", || format!("the l records do not reproduce the lines; {text}"));
    // a file that can not be written is an error
    if rng.chance(1, 4) {
        let bad = if rng.chance(1, 2) { d.0.clone() } else { d.0.join("missing").join("out.obj") };
        if let Some(r) = o.call("save_to_obj_file", || save_to_obj_file(&bad, name, &tl)) {
            o.n("unwritable_files");
            let _ = o.check(matches!(r, Err(LinestringError::IoError(_))), "obj:unwritable", || format!("{bad:?}: {r:?}"));
        }
        if std::path::Path::new("/dev/full").exists() {
            if let Some(r) = o.call("save_to_obj_file", || save_to_obj_file("/dev/full", name, &tl)) {
                o.n("full_devices");
                let _ = o.check(matches!(r, Err(LinestringError::IoError(_))), "obj:no_space", || format!("writing to a full device: {r:?}"));
            }
        }
    }
}
pub fn case_c21(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 1000) {
        return large(Large::Obj, rng, o);
    }
    let b = rng.us(5);
    dispatch3!(b, obj_case(rng, o));
}

// ------------------------------------------------------------------ C25
fn finite_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let n = rng.ur(4, 24);
    let r = 1000;
    let mut pts: Vec<(f64, f64)> = Vec::new();
    let mut set = BTreeSet::new();
    while pts.len() < n {
        let p = (rng.range(-r, r), rng.range(-r, r));
        if set.insert(p) {
            pts.push((p.0 as f64, p.1 as f64));
        }
    }
    let bad_at: Vec<usize> = (0..rng.ur(1, 2)).map(|_| if rng.chance(1, 4) { *rng.pick(&[0, n - 1]) } else { rng.us(n) }).collect();
    for i in &bad_at {
        let x = *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        o.n(if x.is_nan() { "nan" } else { "infinite" });
        match rng.us(5) {
            0 | 1 => pts[*i].0 = x,
            2 | 3 => pts[*i].1 = x,
            _ => pts[*i] = (x, x),
        }
    }
    let tv: Vec<T> = pts.iter().map(|p| vf2(p.0, p.1)).collect();
    o.input(|| format!("backend {} points {pts:?}", T::NAME));
    let mut h = Fnv::new();
    pts.iter().for_each(|p| {
        h.u(p.0.to_bits());
        h.u(p.1.to_bits());
    });
    o.nontrivial(h.0);
    // hulls
    let mut all: Vec<usize> = (0..n).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut all);
    }
    let refused = |o: &mut Obs, name: &'static str, r: Option<Result<String, LinestringError>>| {
        if let Some(r) = r {
            let _ = o.check(matches!(r, Err(LinestringError::InvalidData(_))), &format!("finite:{name}"), || format!("{name}: no InvalidData error but {r:?} for {pts:?}"));
        }
    };
    let t = |v: Vec<T>| format!("{:?}", v.into_iter().map(f2).collect::<Vec<_>>());
    let r = o.call("graham_scan", || ch::graham_scan(&tv).map(t));
    refused(o, "graham_scan", r);
    #[allow(deprecated)]
    let r = o.call("graham_scan_wo_atan2", || ch::graham_scan_wo_atan2(&tv).map(t));
    refused(o, "graham_scan_wo_atan2", r);
    let r = o.call("gift_wrap", || ch::gift_wrap(&tv).map(t));
    refused(o, "gift_wrap", r);
    let r = o.call("LineString2::convex_hull", || tv.convex_hull().map(t));
    refused(o, "convex_hull", r);
    let r = o.call("indexed_graham_scan", || ch::indexed_graham_scan(&tv, &all).map(|v| format!("{v:?}")));
    refused(o, "indexed_graham_scan", r);
    let r = o.call("indexed_gift_wrap", || ch::indexed_gift_wrap(&tv, &all).map(|v| format!("{v:?}")));
    refused(o, "indexed_gift_wrap", r);
    let chunk = rng.ur(1, n + 2);
    if rng.chance(1, 4) {
        let r = o.call_par("convex_hull_par", || ch::convex_hull_par(&tv, &all, chunk).map(|v| format!("{v:?}")));
        refused(o, "convex_hull_par", r);
        let r = o.call_par("LineString2::convex_hull_par", || tv.convex_hull_par(chunk.max(2)).map(t));
        refused(o, "convex_hull_par (line string)", r);
    }
    // a selection without the bad vertices is fine
    let good: Vec<usize> = all.iter().cloned().filter(|i| !bad_at.contains(i)).collect();
    if good.len() > 3 {
        o.n("clean_selections");
        for (name, r) in [
            ("indexed_graham_scan", o.call("indexed_graham_scan", || ch::indexed_graham_scan(&tv, &good))),
            ("indexed_gift_wrap", o.call("indexed_gift_wrap", || ch::indexed_gift_wrap(&tv, &good))),
        ] {
            if let Some(r) = r {
                let _ = o.check(r.is_ok(), "finite:unused_vertex", || format!("{name}: refused because of a vertex that is not selected {pts:?} {good:?}"));
            }
        }
    }
    // sweep line
    let lines: Vec<Line2<T>> = tv.window_iter().collect();
    let r = o.call("IntersectionData", || {
        IntersectionData::<T>::default().with_lines(lines.iter().cloned()).and_then(|d| d.compute()).map(|i| format!("{} results", i.len()))
    });
    refused(o, "IntersectionData", r);
    let edges: Vec<(usize, usize)> = (0..n - 1).map(|i| if rng.chance(1, 2) { (i, i + 1) } else { (i + 1, i) }).collect();
    let r = o.call("IntersectionTester", || {
        IntersectionTester::<T>::new(tv.clone()).with_edges(edges.iter()).and_then(|d| d.compute()).map(|i| format!("{} results", i.1.len()))
    });
    refused(o, "IntersectionTester", r);
    let good: Vec<(usize, usize)> = edges.iter().cloned().filter(|e| !bad_at.contains(&e.0) && !bad_at.contains(&e.1)).collect();
    if let Some(r) = o.call("IntersectionTester", || {
        IntersectionTester::<T>::new(tv.clone()).with_edges(good.iter()).and_then(|d| d.compute()).map(|i| i.1.len())
    }) {
        let _ = o.check(r.is_ok(), "finite:unused_vertex", || format!("IntersectionTester: refused because of an unused vertex {pts:?} {good:?}"));
    }
    if n >= 10 {
        let r = o.call("is_self_intersecting", || tv.is_self_intersecting().map(|b| b.to_string()));
        refused(o, "is_self_intersecting", r);
    }
}
pub fn case_c25(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, finite_case(rng, o));
}

// ------------------------------------------------------------------ C27
/// g >= 0, x, y with a * x + b * y = g
fn ext_gcd(a: i64, b: i64) -> (i64, i64, i64) {
    let (mut r0, mut r1, mut x0, mut x1, mut y0, mut y1) = (a, b, 1, 0, 0, 1);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (x0, x1) = (x1, x0 - q * x1);
        (y0, y1) = (y1, y0 - q * y1);
    }
    if r0 < 0 {
        (-r0, -x0, -y0)
    } else {
        (r0, x0, y0)
    }
}
fn orient_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    // (the differences of the largest ones still have exact products)
    let r = if T::F32 { *rng.pick(&[1i64, 3, 20, 400, 2047]) } else { *rng.pick(&[1i64, 3, 20, 1000, 10_000_000, 1 << 25]) };
    // the smallest scales keep the smallest product above the absolute tolerance of the predicates
    let k = match rng.us(4) {
        0 => 1.0,
        1 => 2f64.powi(-(rng.range(0, if T::F32 { 11 } else { 25 }) as i32)),
        2 => 2f64.powi(rng.range(0, if T::F32 { 20 } else { 100 }) as i32),
        _ => *rng.pick(&[1.0, 0.0625, 64.0]),
    };
    let p = |rng: &mut Rng| (rng.range(-r, r), rng.range(-r, r));
    let (a, b) = (p(rng), p(rng));
    let c = match rng.us(7) {
        6 => {
            // as near to the line as a grid point can be
            let d = (b.0 - a.0, b.1 - a.1);
            let (g, x, y) = ext_gcd(d.0, d.1);
            if g == 0 {
                a
            } else {
                // d.0 * x + d.1 * y = g: the point (-y, x) has the cross product g
                let sg = if rng.chance(1, 2) { 1 } else { -1 };
                let m = rng.range(-1, 1);
                o.n("nearest_points");
                (a.0 - sg * y + m * d.0 / g, a.1 + sg * x + m * d.1 / g)
            }
        }
        0 => {
            let t = rng.range(-2, 2);
            (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1))
        }
        1 => {
            let t = rng.range(-2, 2);
            (a.0 + t * (b.0 - a.0) + rng.range(-1, 1), a.1 + t * (b.1 - a.1) + rng.range(-1, 1))
        }
        2 => a,
        3 => b,
        _ => p(rng),
    };
    let c = if r >= if T::F32 { 2047 } else { 1 << 25 } { (c.0.clamp(-r, r), c.1.clamp(-r, r)) } else { c };
    o.input(|| format!("backend {} scale {k} {a:?} {b:?} {c:?}", T::NAME));
    let mut h = Fnv::new();
    h.pts(&[a, b, c]);
    o.nontrivial(h.0);
    let q: [P; 3] = [a, b, c];
    for (i, j, l) in [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)] {
        let (x, y, z) = (q[i], q[j], q[l]);
        let w = cross(x, y, z);
        let (tx, ty, tz) = (v2::<T>(x, k), v2::<T>(y, k), v2::<T>(z, k));
        o.n(match w.signum() {
            1 => "left",
            -1 => "right",
            _ => "collinear",
        });
        let g: f64 = ch::cross_2d(tx, ty, tz).into();
        // (the products are exact, their difference is rounded once)
        let e = if T::F32 { w as f32 as f64 } else { w as f64 };
        let _ = o.check(g == e * k * k, "orient:cross_2d", || format!("cross_2d({x:?},{y:?},{z:?}) is {g} (scale {k})"));
        let g = ch::is_point_left(tx, ty, tz);
        let _ = o.check(g == (w > 0), "orient:is_point_left", || format!("is_point_left({x:?},{y:?},{z:?}) is {g}, cross product {w}"));
        let g = ch::is_point_left_allow_collinear(tx, ty, tz);
        let _ = o.check(g == (w >= 0), "orient:allow_collinear", || format!("is_point_left_allow_collinear({x:?},{y:?},{z:?}) is {g}, cross product {w}"));
        let g = ch::point_orientation(tx, ty, tz);
        let ok = g.is_left() == (w > 0) && g.is_left_or_collinear() == (w >= 0);
        let same = match g {
            ch::Orientation::Left => w > 0,
            ch::Orientation::Right => w < 0,
            ch::Orientation::Collinear => w == 0,
        };
        let _ = o.check(ok && same, "orient:point_orientation", || format!("point_orientation({x:?},{y:?},{z:?}) is wrong, cross product {w}"));
    }
}
pub fn case_c27(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, orient_case(rng, o));
}

// ------------------------------------------------------------------ C28
fn numbers(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut c = String::new();
    for x in s.chars() {
        if x.is_ascii_digit() || matches!(x, '.' | '-' | '+' | 'e' | 'E') {
            c.push(x);
        } else if !c.is_empty() {
            v.push(std::mem::take(&mut c));
        }
    }
    v
}
fn some_number(rng: &mut Rng, f32s: bool) -> f64 {
    let x = match rng.us(9) {
        0 => rng.range(-9, 9) as f64,
        1 => rng.range(-9, 9) as f64 / 8.0,
        2 => rng.fr(-1.0, 1.0),
        3 => rng.fr(-1.0, 1.0) * 1e-20,
        4 => rng.fr(-1.0, 1.0) * 1e20,
        5 => -0.0,
        6 => rng.range(-1_000_000, 1_000_000) as f64,
        7 => rng.range(1 << 24, 1 << 40) as f64 * 3.0,
        _ => rng.fr(-1000.0, 1000.0),
    };
    if f32s {
        x as f32 as f64
    } else {
        x
    }
}
fn judge_text(o: &mut Obs, name: &str, text: &str, want: &[f64], f32s: bool) {
    // the text between the names, e.g. "Aabb2[", must not be taken for numbers
    let body = text.trim_start_matches(|c: char| c != '(');
    let n = numbers(&body.replace(")-(", "),("));
    let got: Option<Vec<u64>> = n.iter().map(|s| if f32s { s.parse::<f32>().ok().map(|x| (x as f64).to_bits()) } else { s.parse::<f64>().ok().map(|x| x.to_bits()) }).collect();
    let w: Vec<u64> = want.iter().map(|x| x.to_bits()).collect();
    let _ = o.check(got.as_ref() == Some(&w), &format!("text:{name}"), || format!("{name} is written as {text:?}, values {want:?}"));
    let _ = o.check(n.iter().all(|s| s.contains('.')), &format!("text:{name}:decimals"), || format!("{name} is written as {text:?}, without decimals"));
    o.add("numbers_read_back", n.len() as u64);
}
fn text2<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let v: Vec<f64> = (0..4).map(|_| some_number(rng, T::F32)).collect();
    o.input(|| format!("backend {} values {v:?}", T::NAME));
    let l = Line2::<T>::new(vf2(v[0], v[1]), vf2(v[2], v[3]));
    judge_text(o, "Line2", &format!("{l:?}"), &v, T::F32);
    // an intersection is written as its point or line
    let x = format!("{:?}", linestring::linestring_2d::Intersection::Overlap(l));
    let _ = o.check(x == format!("{l:?}"), "text:overlap", || format!("an overlap {l:?} is written as {x:?}"));
    let x = format!("{:?}", linestring::linestring_2d::Intersection::Intersection(l.start));
    let _ = o.check(x == format!("{:?}", l.start), "text:intersection", || format!("an intersection at {:?} is written as {x:?}", l.start));
    let x = format!("{:?}", Aabb2::<T>::default());
    let _ = o.check(!x.trim_start_matches("Aabb2").contains(|c: char| c.is_ascii_digit()), "text:empty", || format!("an empty box is written as {x:?}"));
    let b = Aabb2::<T>::with_points(&[l.start, l.end]);
    if v[0] != v[2] && v[1] != v[3] {
        let w = [v[0].min(v[2]), v[1].min(v[3]), v[0].max(v[2]), v[1].max(v[3])];
        judge_text(o, "Aabb2", &format!("{b:?}"), &w, T::F32);
    }
    let mut h = Fnv::new();
    v.iter().for_each(|x| h.u(x.to_bits()));
    o.nontrivial(h.0);
}
fn text3<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let v: Vec<f64> = (0..6).map(|_| some_number(rng, T::F32)).collect();
    o.input(|| format!("backend {} values {v:?}", T::NAME));
    let l = Line3::<T>::new(vf3(v[0], v[1], v[2]), vf3(v[3], v[4], v[5]));
    judge_text(o, "Line3", &format!("{l:?}"), &v, T::F32);
    let mut h = Fnv::new();
    v.iter().for_each(|x| h.u(x.to_bits()));
    o.nontrivial(h.0);
}
pub fn case_c28(rng: &mut Rng, o: &mut Obs) {
    plain_zeros();
    let b = rng.us(5);
    if rng.chance(1, 2) {
        dispatch2!(b, text2(rng, o));
    } else {
        dispatch3!(b, text3(rng, o));
    }
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C20"))]
    Prop {
        id: "C20",
        case: case_c20,
        directed: &[],
        quick: 1_200_000,
        thorough: 48_000_000,
        threads: 8,
        rule: "graphs of chains, rings, stars, loops, parallel paths, grids and random edges, renumbered, shuffled, reversed, with duplicates; non-trivial: more than one edge",
        required: &["large_inputs", "rings", "loops_from_a_junction", "end_vertices", "through_vertices", "junctions", "odd_number_of_indices"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C21"))]
    Prop {
        id: "C21",
        case: case_c21,
        directed: &[],
        quick: 32_000,
        thorough: 1_280_000,
        threads: 8,
        rule: "groups of lines between vertices of a small pool (shared, almost equal, signed zeros, extreme magnitudes); the written file is parsed; non-trivial: at least one line",
        required: &["large_inputs", "records", "files_with_shared_vertices", "existing_files_replaced", "unwritable_files"],
        assumptions: &["files are written only into a scratch directory created for the case, and to /dev/full"],
    },
    #[cfg(any(feature = "all", feature = "C25"))]
    Prop {
        id: "C25",
        case: case_c25,
        directed: &[],
        quick: 240_000,
        thorough: 9_600_000,
        threads: 8,
        rule: "4-24 different points of which one or two have a NaN or infinite component at any position",
        required: &["nan", "infinite", "clean_selections"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C27"))]
    Prop {
        id: "C27",
        case: case_c27,
        directed: &[],
        quick: 3_000_000,
        thorough: 120_000_000,
        threads: 8,
        rule: "triples of grid points (random, collinear, almost collinear, equal) in all six orders",
        required: &["left", "right", "collinear", "nearest_points"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C28"))]
    Prop {
        id: "C28",
        case: case_c28,
        directed: &[],
        quick: 1_200_000,
        thorough: 48_000_000,
        threads: 8,
        rule: "lines and boxes with integral, fractional, tiny and huge coordinates; the text is parsed again",
        required: &["numbers_read_back"],
        assumptions: &[],
    },
];

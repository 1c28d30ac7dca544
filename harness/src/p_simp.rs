//! C11/C12 Ramer-Douglas-Peucker, C13/C14 Visvalingam-Whyatt
use crate::core::*;
use crate::gen::*;
use crate::rng::*;
use crate::{dispatch2, dispatch3};
use linestring::linestring_2d::LineString2;
use linestring::linestring_3d::LineString3;
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};
use std::collections::{BTreeSet, HashMap};

pub type P3 = (i64, i64, i64);

pub fn sub3(a: P3, b: P3) -> (i128, i128, i128) {
    ((a.0 - b.0) as i128, (a.1 - b.1) as i128, (a.2 - b.2) as i128)
}
pub fn dot3(a: (i128, i128, i128), b: (i128, i128, i128)) -> i128 {
    a.0 * b.0 + a.1 * b.1 + a.2 * b.2
}
pub fn cross3(a: (i128, i128, i128), b: (i128, i128, i128)) -> (i128, i128, i128) {
    (a.1 * b.2 - a.2 * b.1, a.2 * b.0 - a.0 * b.2, a.0 * b.1 - a.1 * b.0)
}
/// squared distance to the segment a-b, or (segment==false) to the line through a and b
pub fn d2(a: P3, b: P3, p: P3, segment: bool) -> f64 {
    let (d, e) = (sub3(b, a), sub3(p, a));
    let l = dot3(d, d);
    if l == 0 {
        return dot3(e, e) as f64;
    }
    let t = dot3(e, d);
    if segment && t < 0 {
        return dot3(e, e) as f64;
    }
    if segment && t > l {
        let f = sub3(p, b);
        return dot3(f, f) as f64;
    }
    let c = cross3(d, e);
    dot3(c, c) as f64 / l as f64
}

/// Is `out` a possible result of the RDP algorithm on `inp` (ids index `pos`)
struct Rdp<'a> {
    pos: &'a dyn Fn(usize) -> P3,
    inp: &'a [usize],
    out: &'a [usize],
    segment: bool,
    tol2: f64,
    slack: f64,
    memo: HashMap<(usize, usize, usize, usize), bool>,
    why: String,
}
impl Rdp<'_> {
    fn run(&mut self) -> bool {
        let (n, m) = (self.inp.len(), self.out.len());
        if n <= 2 {
            return self.inp == self.out;
        }
        if m < 2 || self.inp[0] != self.out[0] || self.inp[n - 1] != self.out[m - 1] {
            self.why = "the end points are not preserved".into();
            return false;
        }
        self.chk(0, n - 1, 0, m - 1)
    }
    fn chk(&mut self, a: usize, b: usize, oa: usize, ob: usize) -> bool {
        if b - a <= 1 || ob == oa {
            return ob - oa == b - a;
        }
        if let Some(v) = self.memo.get(&(a, b, oa, ob)) {
            return *v;
        }
        let (pa, pb) = ((self.pos)(self.inp[a]), (self.pos)(self.inp[b]));
        let d: Vec<f64> = (a + 1..b).map(|i| d2(pa, pb, (self.pos)(self.inp[i]), self.segment)).collect();
        let max = d.iter().cloned().fold(0.0f64, f64::max);
        let mut rv = false;
        if ob == oa + 1 {
            rv = max <= self.tol2 * (1.0 + self.slack);
            if !rv && self.why.is_empty() {
                self.why = format!("all points between #{a} and #{b} are removed, but one is at distance {} > tolerance", max.sqrt());
            }
        } else if max > self.tol2 * (1.0 - self.slack) && max > 0.0 {
            'o: for s in a + 1..b {
                if d[s - a - 1] >= max * (1.0 - self.slack) {
                    for t in oa + 1..ob {
                        if self.out[t] == self.inp[s] && self.chk(a, s, oa, t) && self.chk(s, b, t, ob) {
                            rv = true;
                            break 'o;
                        }
                    }
                }
            }
            if !rv && self.why.is_empty() {
                self.why = format!("the point furthest from #{a}-#{b} is not kept");
            }
        } else if self.why.is_empty() {
            self.why = format!("points are kept between #{a} and #{b} although all of them are within the tolerance ({} max)", max.sqrt());
        }
        let _ = self.memo.insert((a, b, oa, ob), rv);
        rv
    }
}

fn rdp_ok(pos: &dyn Fn(usize) -> P3, inp: &[usize], out: &[usize], segment: bool, tol: f64, slack: f64) -> Result<(), String> {
    let mut r = Rdp { pos, inp, out, segment, tol2: tol * tol, slack, memo: HashMap::new(), why: String::new() };
    if r.run() {
        Ok(())
    } else {
        Err(r.why)
    }
}

/// polyline on the integer grid, `three` dimensional or flat, sometimes with exact tolerance
pub fn poly3(rng: &mut Rng, n: usize, r: i64, three: bool) -> Vec<P3> {
    let mut v: Vec<P3> = match rng.us(5) {
        0 => (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r), rng.range(-r, r))).collect(),
        1 => {
            // runs of collinear points
            let mut p = (rng.range(-r, r), rng.range(-r, r), rng.range(-r, r));
            let mut out = vec![p];
            while out.len() < n {
                let s = (r / 10).max(1);
                let d = (rng.range(-s, s), rng.range(-s, s), rng.range(-s, s));
                for _ in 0..rng.ur(1, 4) {
                    p = ((p.0 + d.0).clamp(-r, r), (p.1 + d.1).clamp(-r, r), (p.2 + d.2).clamp(-r, r));
                    out.push(p);
                }
            }
            out.truncate(n);
            out
        }
        _ => {
            let z = rng.range(0, r);
            polyline(rng, n, r).into_iter().map(|p| (p.0, p.1, rng.range(-z, z))).collect()
        }
    };
    if !three {
        v.iter_mut().for_each(|p| p.2 = 0);
    }
    if n > 3 && rng.chance(1, 4) {
        // points beyond the ends of the segment between the end points
        let (a, b) = (v[0], v[n - 1]);
        let i = rng.ur(1, n - 2);
        let c = |x: i64| x.clamp(-r, r);
        v[i] = if rng.chance(1, 2) { (c(2 * b.0 - a.0), c(2 * b.1 - a.1), c(2 * b.2 - a.2)) } else { (c(2 * a.0 - b.0), c(2 * a.1 - b.1), c(2 * a.2 - b.2)) };
    }
    if n > 3 && rng.chance(1, 6) {
        v[n - 1] = v[0];
    }
    if n > 1 && rng.chance(1, 8) {
        let i = rng.us(n - 1);
        v[i + 1] = v[i];
    }
    v
}

/// a chain along an axis where the distances, and the comparison, are exact
fn comb(rng: &mut Rng, n: usize, three: bool) -> (Vec<P3>, i64) {
    let l = rng.range(2, 64);
    let h = rng.range(1, 16);
    let mut v: Vec<P3> = (0..n.max(3)).map(|_| (rng.range(0, l), rng.range(-h, h), 0)).collect();
    v[0] = (0, 0, 0);
    let m = v.len();
    v[m - 1] = (l, 0, 0);
    let i = rng.ur(1, m - 2);
    v[i].1 = if rng.chance(1, 2) { h } else { -h };
    if rng.chance(1, 2) {
        v.iter_mut().for_each(|p| *p = (p.1, p.0, p.2));
    }
    if three {
        match rng.us(3) {
            0 => v.iter_mut().for_each(|p| *p = (p.1, p.2, p.0)),
            1 => v.iter_mut().for_each(|p| *p = (p.2, p.0, p.1)),
            _ => {}
        }
    }
    (v, h)
}

/// scaling by a power of two changes nothing but the exponents, as long as squared areas and
/// squared distances stay in the normal range (the smallest ones are still far above the absolute
/// epsilon of the comparison of the end points)
fn any_scale(rng: &mut Rng, o: &mut Obs, f32s: bool) -> f64 {
    if rng.chance(2, 3) {
        return *rng.pick(&[1.0, 1.0, 0.125, 16.0]);
    }
    o.n("very_small_or_large_coordinates");
    let e = if f32s { rng.range(-16, 16) } else { rng.range(-40, 100) };
    2.0f64.powi(e as i32)
}

struct RdpCase {
    v: Vec<P3>,
    tol: f64,
    slack: f64,
    k: f64,
}
fn rdp_gen(rng: &mut Rng, o: &mut Obs, three: bool, f32s: bool) -> RdpCase {
    let k = any_scale(rng, o, f32s);
    if rng.chance(1, 2500) {
        let very = rng.chance(1, 10);
        let n = if very { rng.ur(65_600, 70_000) } else { rng.ur(257, 5000) };
        o.n(if very { "more_than_65536_points" } else { "more_than_256_points" });
        let r = if f32s { 1500 } else { 100_000 };
        let mut v: Vec<P3> = match rng.us(2) {
            0 => (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r), if three { rng.range(-r, r) } else { 0 })).collect(),
            _ => (0..n as i64).map(|i| (i * r / n as i64, rng.range(-r / 50, r / 50), if three { rng.range(-r / 50, r / 50) } else { 0 })).collect(),
        };
        if rng.chance(1, 4) {
            v[n - 1] = v[0];
        }
        let tol = match rng.us(4) {
            0 => 0.0,
            1 => rng.fr(0.0, r as f64 * 0.6),
            _ => rng.fr(0.0, r as f64 * 0.03),
        };
        return RdpCase { v, tol: tol as f32 as f64, slack: if f32s { 1e-4 } else { 1e-10 }, k };
    }
    let n = match rng.us(8) {
        0 => rng.ur(0, 3),
        1..=4 => rng.ur(3, 12),
        5 | 6 => rng.ur(8, 40),
        _ => rng.ur(30, 150),
    };
    if rng.chance(1, 5) {
        let (v, h) = comb(rng, n, three);
        o.n("distance_equal_to_tolerance");
        return RdpCase { v, tol: h as f64, slack: 0.0, k };
    }
    let r = if f32s { *rng.pick(&[3i64, 8, 30, 300]) } else { *rng.pick(&[3i64, 8, 30, 300, 5000]) };
    let v = poly3(rng, n, r, three);
    let tol = match rng.us(6) {
        0 => 0.0,
        1 => rng.range(1, r) as f64,
        2 => 1e9,
        _ => rng.fr(0.0, r as f64 * 0.6),
    };
    // the tolerance has to be the same number in both widths
    let tol = (tol as f32) as f64;
    RdpCase { v, tol, slack: if f32s { 1e-4 } else { 1e-10 }, k }
}
fn note_rdp(o: &mut Obs, inp: &[usize], out: usize) {
    if inp.len() > 2 {
        if out == 2 {
            o.n("all_removed");
        } else if out < inp.len() {
            o.n("some_removed");
        } else {
            o.n("none_removed");
        }
    }
}

/// canonical ids for points (first position of the same point)
fn canon(v: &[P3]) -> HashMap<P3, usize> {
    let mut m = HashMap::new();
    for (i, p) in v.iter().enumerate() {
        let _ = m.entry(*p).or_insert(i);
    }
    m
}
fn grid3(p: (f64, f64, f64), k: f64) -> Option<P3> {
    let q = (p.0 / k, p.1 / k, p.2 / k);
    if q.0.fract() == 0.0 && q.1.fract() == 0.0 && q.2.fract() == 0.0 {
        Some((q.0 as i64, q.1 as i64, q.2 as i64))
    } else {
        None
    }
}

fn judge_rdp(o: &mut Obs, name: &str, three: bool, c: &RdpCase, pos: &dyn Fn(usize) -> P3, inp: &[usize], out: &[usize]) {
    note_rdp(o, inp, out.len());
    match rdp_ok(pos, inp, out, true, c.tol, c.slack) {
        Ok(()) => o.n("oracle_checks"),
        Err(why) => {
            let line = three && rdp_ok(pos, inp, out, false, c.tol, c.slack).is_ok();
            let sig = if line { format!("{name}:distance_to_infinite_line") } else { name.to_string() };
            o.fail(
                sig,
                format!(
                    "{name}({}) : {why}; input {:?} kept {:?}",
                    c.tol,
                    inp.iter().map(|i| pos(*i)).collect::<Vec<_>>(),
                    out.iter().map(|i| if *i == usize::MAX { (i64::MAX, 0, 0) } else { pos(*i) }).collect::<Vec<_>>()
                ),
            )
        }
    }
}
/// indices into a vertex table: a selection in any order, repeats allowed
fn selection(rng: &mut Rng, o: &mut Obs, n: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let i: Vec<usize> = match rng.us(6) {
        0 | 1 => (0..n).collect(),
        2 => (0..n).rev().collect(),
        3 => (0..n).filter(|_| rng.chance(2, 3)).collect(),
        4 => {
            let mut p: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut p);
            p
        }
        _ => (0..rng.us(2 * n + 3)).map(|_| rng.us(n)).collect(),
    };
    if n <= 2 && i.len() > 2 {
        o.n("more_indices_than_vertices");
    }
    i
}

fn rdp2<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let c = rdp_gen(rng, o, false, T::F32);
    let tv: Vec<T> = c.v.iter().map(|p| v2((p.0, p.1), c.k)).collect();
    let tol = sc::<T::Scalar>(c.tol * c.k);
    o.input(|| format!("backend {} scale {} tolerance {} points {:?}", T::NAME, c.k, c.tol, c.v));
    hash3(o, &c.v, c.tol);
    let ids = canon(&c.v);
    let pos = |i: usize| c.v[i];
    let inp: Vec<usize> = c.v.iter().map(|p| ids[p]).collect();
    if let Some(out) = o.call("simplify_rdp_2d", || tv.simplify_rdp(tol)) {
        let out: Vec<usize> = out.iter().map(|p| grid3({ let q = f2(*p); (q.0, q.1, 0.0) }, c.k).and_then(|p| ids.get(&p).copied()).unwrap_or(usize::MAX)).collect();
        judge_rdp(o, "simplify_rdp_2d", false, &c, &pos, &inp, &out);
    }
    let sel = selection(rng, o, c.v.len());
    if let Some(out) = o.call("indexed_simplify_rdp_2d", || indexed_simplify_rdp_2d(&tv, &sel, tol)) {
        judge_rdp(o, "indexed_simplify_rdp_2d", false, &c, &pos, &sel, &out);
    }
}
fn rdp3<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let c = rdp_gen(rng, o, true, T::F32);
    let tv: Vec<T> = c.v.iter().map(|p| vf3(p.0 as f64 * c.k, p.1 as f64 * c.k, p.2 as f64 * c.k)).collect();
    let tol = sc::<T::Scalar>(c.tol * c.k);
    o.input(|| format!("backend {} scale {} tolerance {} points {:?}", T::NAME, c.k, c.tol, c.v));
    hash3(o, &c.v, c.tol);
    let ids = canon(&c.v);
    let pos = |i: usize| c.v[i];
    let inp: Vec<usize> = c.v.iter().map(|p| ids[p]).collect();
    if let Some(out) = o.call("simplify_rdp_3d", || tv.simplify_rdp(tol)) {
        let out: Vec<usize> = out.iter().map(|p| grid3(f3(*p), c.k).and_then(|p| ids.get(&p).copied()).unwrap_or(usize::MAX)).collect();
        judge_rdp(o, "simplify_rdp_3d", true, &c, &pos, &inp, &out);
    }
    let sel = selection(rng, o, c.v.len());
    if let Some(out) = o.call("indexed_simplify_rdp_3d", || indexed_simplify_rdp_3d(&tv, &sel, tol)) {
        judge_rdp(o, "indexed_simplify_rdp_3d", true, &c, &pos, &sel, &out);
    }
}
fn hash3(o: &mut Obs, v: &[P3], x: f64) {
    let mut h = Fnv::new();
    for p in v {
        h.u(p.0 as u64);
        h.u(p.1 as u64);
        h.u(p.2 as u64);
    }
    h.u(x.to_bits());
    if v.len() > 2 {
        o.nontrivial(h.0);
    }
}
pub fn case_c11(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, rdp2(rng, o));
}
pub fn case_c12(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch3!(b, rdp3(rng, o));
}

// ------------------------------------------------------------ Visvalingam-Whyatt
pub fn area2(a: P3, b: P3, c: P3) -> i128 {
    let x = cross3(sub3(b, a), sub3(c, a));
    dot3(x, x)
}
/// Can `target` be reached by deleting, `steps` times, an interior point with the smallest
/// triangle. None: undecided (too many ties).
fn vw_reach(pts: &[P3], cur: &mut Vec<usize>, steps: usize, target: &[P3], budget: &mut i64, ties: &mut bool) -> Option<bool> {
    if steps == 0 {
        return Some(cur.len() == target.len() && cur.iter().zip(target.iter()).all(|(i, p)| pts[*i] == *p));
    }
    *budget -= 1;
    if *budget < 0 {
        return None;
    }
    let areas: Vec<i128> = cur.windows(3).map(|w| area2(pts[w[0]], pts[w[1]], pts[w[2]])).collect();
    let m = *areas.iter().min().unwrap();
    let mut cand: Vec<usize> = (0..areas.len()).filter(|i| areas[*i] == m).map(|i| i + 1).collect();
    if cand.len() > 1 {
        *ties = true;
        // prefer points which are not in the target
        cand.sort_by_key(|i| target.contains(&pts[cur[*i]]));
    }
    let mut undecided = false;
    for c in cand {
        let x = cur.remove(c);
        let r = vw_reach(pts, cur, steps - 1, target, budget, ties);
        cur.insert(c, x);
        match r {
            Some(true) => return r,
            Some(false) => {}
            None => {
                undecided = true;
                break;
            }
        }
    }
    if undecided {
        None
    } else {
        Some(false)
    }
}
fn vw_ok(o: &mut Obs, pts: &[P3], steps: usize, target: &[P3]) -> Option<bool> {
    let mut cur: Vec<usize> = (0..pts.len()).collect();
    let mut ties = false;
    let r = vw_reach(pts, &mut cur, steps, target, &mut 3000, &mut ties);
    if ties {
        o.n("equal_areas");
    } else {
        o.n("unique_order");
    }
    r
}
/// Deletes `d` times the point with the smallest triangle; None if two of them are too close to call
pub fn vw_reference(p: &[P3], d: usize) -> Option<Vec<P3>> {
    let n = p.len();
    let mut prev: Vec<usize> = (0..n).map(|i| i.wrapping_sub(1)).collect();
    let mut next: Vec<usize> = (0..n).map(|i| i + 1).collect();
    let key = |prev: &[usize], next: &[usize], i: usize| area2(p[prev[i]], p[i], p[next[i]]);
    let mut q: BTreeSet<(i128, usize)> = (1..n - 1).map(|i| (key(&prev, &next, i), i)).collect();
    let mut dead = vec![false; n];
    for _ in 0..d {
        let (k, i) = q.pop_first()?;
        if let Some((k2, _)) = q.first() {
            if (*k2 - k) as f64 <= *k2 as f64 * 1e-12 {
                return None;
            }
        }
        dead[i] = true;
        let (a, b) = (prev[i], next[i]);
        if a > 0 {
            let _ = q.remove(&(key(&prev, &next, a), a));
        }
        if b < n - 1 {
            let _ = q.remove(&(key(&prev, &next, b), b));
        }
        next[a] = b;
        prev[b] = a;
        if a > 0 {
            let _ = q.insert((key(&prev, &next, a), a));
        }
        if b < n - 1 {
            let _ = q.insert((key(&prev, &next, b), b));
        }
    }
    Some((0..n).filter(|i| !dead[*i]).map(|i| p[i]).collect())
}
/// the number of points is known even where the order is not
fn long_ok(o: &mut Obs, v: &[P3], steps: usize, got: &[P3]) -> Option<bool> {
    if got.len() != v.len() - steps {
        return Some(false);
    }
    let want = vw_reference(v, steps)?;
    o.n(if v.len() > 65_536 { "more_than_65536_points" } else { "more_than_256_points" });
    Some(want == got)
}
/// Longer polylines, compared with a reference, for (nearly) unique orders.
/// Returns the points, how many to delete and the scale
fn vw_long(rng: &mut Rng, three: bool, f32s: bool) -> Option<(Vec<P3>, usize, f64)> {
    let very = !f32s && rng.chance(1, 10);
    let n = if very { rng.ur(65_600, 75_000) } else if f32s { rng.ur(257, 600) } else { rng.ur(257, 3000) };
    let r = match (three, f32s) {
        (true, true) => return None,
        (false, true) => 700,
        (true, false) => 1i64 << 20,
        (false, false) => 1i64 << 23,
    };
    let mut v: Vec<P3> = (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r), if three { rng.range(-r, r) } else { 0 })).collect();
    if rng.chance(1, 3) {
        v[n - 1] = v[0];
    }
    let d = match rng.us(3) {
        0 => usize::MAX,
        1 => n - rng.us(40),
        _ => rng.us(n),
    };
    Some((v, d, *rng.pick(&[1.0, 1.0, 0.125, 16.0])))
}
fn vw_gen(rng: &mut Rng, o: &mut Obs, three: bool, f32s: bool) -> (Vec<P3>, usize, f64) {
    let k = any_scale(rng, o, f32s);
    let n = match rng.us(8) {
        0 => rng.ur(0, 3),
        1..=5 => rng.ur(3, 12),
        _ => rng.ur(8, 60),
    };
    // squared areas are exact
    let r = match (three, f32s) {
        (false, true) => *rng.pick(&[5, 50, 700]),
        (false, false) => *rng.pick(&[5, 50, 1000, 50_000]),
        (true, true) => *rng.pick(&[5, 16]),
        (true, false) => *rng.pick(&[5, 50, 1500]),
    };
    let v = poly3(rng, n, r, three);
    let d = match rng.us(8) {
        0 => 0,
        1 => usize::MAX,
        2 => n + rng.us(3),
        3 => n.saturating_sub(2 + rng.us(3)),
        _ => rng.us(n + 1),
    };
    if n > 3 && v[0] == v[n - 1] {
        o.n("closed");
    }
    (v, d, k)
}
fn vw2<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let long = rng.chance(1, 2500).then(|| vw_long(rng, false, T::F32)).flatten();
    let is_long = long.is_some();
    let (v, d, k) = long.unwrap_or_else(|| vw_gen(rng, o, false, T::F32));
    let tv: Vec<T> = v.iter().map(|p| v2((p.0, p.1), k)).collect();
    o.input(|| format!("backend {} scale {} delete {} points {:?}", T::NAME, k, d, v));
    hash3(o, &v, d as f64);
    let Some(out) = o.call("simplify_vw_2d", || tv.simplify_vw(d)) else { return };
    let n = v.len();
    let closed = n > 0 && v[0] == v[n - 1];
    let keep = match (n, closed) {
        (0..=2, _) => n,
        (_, true) => 3,
        (3, false) => 2,
        _ => 4,
    };
    let steps = d.min(n.saturating_sub(keep));
    if steps > 0 {
        o.n(if steps == d { "as_many_as_asked_for" } else { "limited_by_minimum" });
    }
    let got: Option<Vec<P3>> = out.iter().map(|p| grid3({ let q = f2(*p); (q.0, q.1, 0.0) }, k)).collect();
    let ok = match &got {
        Some(g) if is_long => long_ok(o, &v, steps, g),
        Some(g) => vw_ok(o, &v, steps, g),
        None => Some(false),
    };
    if ok.is_none() {
        o.n("skipped_too_many_ties");
        return;
    }
    let _ = o.check(ok == Some(true), "simplify_vw_2d", || {
        format!("simplify_vw({d}) should delete {steps} point(s), one with the smallest triangle area at a time; points {:?} result {:?}", v, out)
    });
}
fn vw3<T: Backend3>(rng: &mut Rng, o: &mut Obs) {
    let long = rng.chance(1, 2500).then(|| vw_long(rng, true, T::F32)).flatten();
    let is_long = long.is_some();
    let (v, d, k) = long.unwrap_or_else(|| vw_gen(rng, o, true, T::F32));
    let tv: Vec<T> = v.iter().map(|p| vf3(p.0 as f64 * k, p.1 as f64 * k, p.2 as f64 * k)).collect();
    o.input(|| format!("backend {} scale {} delete {} points {:?}", T::NAME, k, d, v));
    hash3(o, &v, d as f64);
    let Some(out) = o.call("simplify_vw_3d", || tv.simplify_vw(d)) else { return };
    let n = v.len();
    let steps = d.min(n.saturating_sub(2));
    if steps > 0 {
        o.n(if steps == d { "as_many_as_asked_for" } else { "limited_by_minimum" });
    }
    let got: Option<Vec<P3>> = out.iter().map(|p| grid3(f3(*p), k)).collect();
    let mut sig = "simplify_vw_3d";
    let ok = match got {
        Some(mut g) => {
            let mut r = if g.len() != n - steps {
                Some(false)
            } else if is_long {
                long_ok(o, &v, steps, &g)
            } else {
                vw_ok(o, &v, steps, &g)
            };
            if r == Some(false) && n > 2 {
                g.push(v[n - 1]);
                match if is_long { long_ok(o, &v, steps, &g) } else { vw_ok(o, &v, steps, &g) } {
                    Some(true) => sig = "simplify_vw_3d:last_vertex_missing",
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        None => Some(false),
    };
    if ok.is_none() {
        o.n("skipped_too_many_ties");
        return;
    }
    let _ = o.check(ok == Some(true), sig, || {
        format!("simplify_vw({d}) should delete {steps} point(s), one with the smallest triangle area at a time, and keep both end points; points {:?} result {:?}", v, out)
    });
}
pub fn case_c13(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, vw2(rng, o));
}
pub fn case_c14(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch3!(b, vw3(rng, o));
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C11"))]
    Prop {
        id: "C11",
        case: case_c11,
        directed: &[],
        quick: 300_000,
        thorough: 12_000_000,
        threads: 0,
        rule: "polylines of 0-150 points (walks, collinear runs, loops, overshoots, exact combs), tolerances from 0 to huge, index selections; non-trivial: more than 2 points",
        required: &["all_removed", "some_removed", "none_removed", "distance_equal_to_tolerance", "more_indices_than_vertices", "very_small_or_large_coordinates", "more_than_256_points", "more_than_65536_points"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C12"))]
    Prop {
        id: "C12",
        case: case_c12,
        directed: &[],
        quick: 800_000,
        thorough: 32_000_000,
        threads: 0,
        rule: "3-D polylines of 0-150 points (walks, collinear runs, loops, overshoots, exact combs), tolerances from 0 to huge, index selections; non-trivial: more than 2 points",
        required: &["all_removed", "some_removed", "none_removed", "distance_equal_to_tolerance", "more_indices_than_vertices", "very_small_or_large_coordinates", "more_than_256_points", "more_than_65536_points"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C13"))]
    Prop {
        id: "C13",
        case: case_c13,
        directed: &[],
        quick: 500_000,
        thorough: 20_000_000,
        threads: 0,
        rule: "polylines of 0-60 points, open and closed, and any number of points to delete; non-trivial: more than 2 points",
        required: &["closed", "equal_areas", "unique_order", "as_many_as_asked_for", "limited_by_minimum", "very_small_or_large_coordinates", "more_than_256_points", "more_than_65536_points"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C14"))]
    Prop {
        id: "C14",
        case: case_c14,
        directed: &[],
        quick: 700_000,
        thorough: 28_000_000,
        threads: 0,
        rule: "3-D polylines of 0-60 points, open and closed, and any number of points to delete; non-trivial: more than 2 points",
        required: &["closed", "equal_areas", "unique_order", "as_many_as_asked_for", "limited_by_minimum", "very_small_or_large_coordinates", "more_than_256_points", "more_than_65536_points"],
        assumptions: &[],
    },
];

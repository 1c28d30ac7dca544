//! C15 discretization of line strings, C16 discretization of parabolic arcs
use crate::core::*;
use crate::gen::*;
use crate::p_simp::{poly3, P3};
use crate::rng::*;
use crate::{dispatch2, dispatch3};
use linestring::linestring_2d::{Line2, LineString2, VoronoiParabolicArc};
use linestring::linestring_3d::LineString3;
use std::collections::BTreeSet;
use vector_traits::num_traits::AsPrimitive;
use vector_traits::{GenericScalar, HasXY};

type F3 = (f64, f64, f64);

fn d3(a: F3, b: F3) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2) + (a.2 - b.2).powi(2)).sqrt()
}

/// compare the discretized points with the specification; `pts` and `out` as f64 (exact)
pub fn judge_disc(o: &mut Obs, name: &str, pts: &[F3], d: f64, out: &[F3], eps: f64) {
    if pts.is_empty() {
        let _ = o.check(out.is_empty(), name, || format!("{name}: points from nothing {:?}", out));
        return;
    }
    let big = pts.iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs()).max(p.2.abs()));
    let mut at: BTreeSet<usize> = BTreeSet::from([0]);
    for (e, w) in pts.windows(2).enumerate() {
        let (a, b) = (w[0], w[1]);
        let l = d3(a, b);
        let q = l / d;
        let lo = ((q * (1.0 - 8.0 * eps)).ceil() as usize).max(1);
        let hi = ((q * (1.0 + 8.0 * eps)).ceil() as usize).max(1);
        if lo != hi {
            o.n("length_multiple_of_distance");
        }
        if l == 0.0 {
            o.n("edges_without_length");
        } else if q < 1.0 {
            o.n("short_edges");
        } else {
            o.n("split_edges");
        }
        let tol = 8.0 * eps * (l + big);
        let mut next = BTreeSet::new();
        let mut why = String::new();
        for &s in &at {
            for n in lo..=hi {
                let mut ok = s + n <= out.len();
                if !ok {
                    why = format!("{} points are missing", s + n - out.len());
                }
                for j in 0..n {
                    if !ok {
                        break;
                    }
                    let f = j as f64 / n as f64;
                    let want = (a.0 + (b.0 - a.0) * f, a.1 + (b.1 - a.1) * f, a.2 + (b.2 - a.2) * f);
                    let g = out[s + j];
                    ok = if j == 0 { g == a } else { d3(g, want) <= tol };
                    if !ok {
                        why = format!("step {j} of {n} is {:?} instead of {:?}", g, want);
                    }
                }
                if ok {
                    let _ = next.insert(s + n);
                }
            }
        }
        if !o.check(!next.is_empty(), name, || format!("{name}({d}) edge #{e} {:?}-{:?}: {why}; input {:?} output {:?}", a, b, pts, &out[..out.len().min(50)])) {
            return;
        }
        at = next;
    }
    let last = pts[pts.len() - 1];
    let ok = at.iter().any(|s| s + 1 == out.len() && out[*s] == last);
    let _ = o.check(ok, &format!("{name}:end"), || format!("{name}({d}) does not end, once, with the last point: input {:?} output ends {:?}", pts, &out[out.len().saturating_sub(4)..]));
}

struct DCase {
    v: Vec<P3>,
    k: f64,
    d: f64,
}
fn disc_gen(rng: &mut Rng, o: &mut Obs, three: bool, f32s: bool) -> DCase {
    let k = if rng.chance(2, 3) {
        *rng.pick(&[1.0, 1.0, 0.0625, 1024.0, 0.1])
    } else {
        o.n("very_small_or_large_coordinates");
        2f64.powi(if f32s { rng.range(-50, 20) } else { rng.range(-300, 100) } as i32)
    };
    let n = match rng.us(6) {
        0 => rng.ur(0, 2),
        _ => rng.ur(2, 20),
    };
    let r = *rng.pick(&[1i64, 3, 10, 100, 1000]);
    let v = poly3(rng, n, r, three);
    let len = |a: P3, b: P3| d3((a.0 as f64, a.1 as f64, a.2 as f64), (b.0 as f64, b.1 as f64, b.2 as f64));
    let total: f64 = v.windows(2).map(|w| len(w[0], w[1])).sum();
    let d = match rng.us(8) {
        0 if v.len() > 1 => {
            // an edge is a multiple of the distance
            let i = rng.us(v.len() - 1);
            len(v[i], v[i + 1]) / rng.range(1, 9) as f64
        }
        1 => rng.range(1, 2 * r) as f64,
        2 => r as f64 * 1e6,
        3 => f64::INFINITY,
        4 => 0.25,
        5 => 3e30,
        _ => rng.fr(0.0, 2.0 * r as f64),
    };
    // now and then a long way of very many steps
    let many = rng.chance(1, 6000) && total > 0.0;
    let d = if many { total / rng.fr(70_000.0, 200_000.0) } else { if !(d > 0.0) { 1.0 } else { d }.max(total / 4000.0) };
    if many {
        o.n("more_than_65536_points");
    }
    let d = if f32s { (d * k) as f32 as f64 } else { d * k };
    if d.is_infinite() {
        o.n("infinite_distance");
    }
    DCase { v, k, d }
}
fn note(o: &mut Obs, c: &DCase) {
    let mut h = Fnv::new();
    for p in &c.v {
        h.u(p.0 as u64);
        h.u(p.1 as u64);
        h.u(p.2 as u64);
    }
    h.u(c.d.to_bits());
    if c.v.len() > 1 {
        o.nontrivial(h.0);
    }
    if c.v.len() == 1 {
        o.n("single_point");
    }
    if c.v.is_empty() {
        o.n("empty");
    }
}
fn disc2<T: Backend2>(rng: &mut Rng, o: &mut Obs)
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let c = disc_gen(rng, o, false, T::F32);
    o.input(|| format!("2d backend {} scale {} distance {} points {:?}", T::NAME, c.k, c.d, c.v));
    note(o, &c);
    let tv: Vec<T> = c.v.iter().map(|p| v2((p.0, p.1), c.k)).collect();
    let up = |p: &T| {
        let q = f2(*p);
        (q.0, q.1, 0.0)
    };
    let pts: Vec<F3> = tv.iter().map(up).collect();
    let d = sc::<T::Scalar>(c.d);
    // `take` bounds the output of a broken iterator
    if let Some(out) = o.call("discretize_2d", || tv.discretize(d).take(300_000).map(|p| up(&p)).collect::<Vec<F3>>()) {
        o.add("points_produced", out.len() as u64);
        judge_disc(o, "discretize_2d", &pts, c.d, &out, eps::<T>());
    }
}
fn disc3<T: Backend3>(rng: &mut Rng, o: &mut Obs)
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let c = disc_gen(rng, o, true, T::F32);
    o.input(|| format!("3d backend {} scale {} distance {} points {:?}", T::NAME, c.k, c.d, c.v));
    note(o, &c);
    let tv: Vec<T> = c.v.iter().map(|p| vf3(p.0 as f64 * c.k, p.1 as f64 * c.k, p.2 as f64 * c.k)).collect();
    let pts: Vec<F3> = tv.iter().map(|p| f3(*p)).collect();
    let d = sc::<T::Scalar>(c.d);
    if let Some(out) = o.call("discretize_3d", || tv.discretize(d).take(300_000).map(f3).collect::<Vec<F3>>()) {
        o.add("points_produced", out.len() as u64);
        judge_disc(o, "discretize_3d", &pts, c.d, &out, eps3::<T>());
    }
}
pub fn case_c15(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    if rng.chance(1, 2) {
        dispatch2!(b, disc2(rng, o));
    } else {
        dispatch3!(b, disc3(rng, o));
    }
}

// ------------------------------------------------------------------ C16
/// the segment's frame: x along the segment, y towards its left
struct Frame {
    a: (f64, f64),
    u: (f64, f64),
    px: f64,
    h: f64,
}
impl Frame {
    fn to(&self, p: (f64, f64)) -> (f64, f64) {
        let d = (p.0 - self.a.0, p.1 - self.a.1);
        (d.0 * self.u.0 + d.1 * self.u.1, self.u.0 * d.1 - self.u.1 * d.0)
    }
    fn from(&self, q: (f64, f64)) -> (f64, f64) {
        (self.a.0 + q.0 * self.u.0 - q.1 * self.u.1, self.a.1 + q.0 * self.u.1 + q.1 * self.u.0)
    }
    fn y(&self, x: f64) -> f64 {
        ((x - self.px).powi(2) + self.h * self.h) / (2.0 * self.h)
    }
    /// largest distance between the arc and its chord
    fn dev(&self, x0: f64, x1: f64) -> f64 {
        let dx = x1 - x0;
        let dy = self.y(x1) - self.y(x0);
        if dx == 0.0 {
            return 0.0;
        }
        dx * dx / (8.0 * self.h.abs()) * dx.abs() / dx.hypot(dy)
    }
}

struct Judge<'a> {
    f: &'a Frame,
    xs: &'a [f64],
    max: f64,
    tol: f64,
    why: String,
}
impl Judge<'_> {
    fn chk(&mut self, i: usize, j: usize) -> bool {
        let (x0, x1) = (self.xs[i], self.xs[j]);
        let dev = self.f.dev(x0, x1);
        if j == i + 1 {
            if dev <= self.max * 1.002 + self.tol {
                return true;
            }
            self.why = format!("the arc between points #{i} and #{j} is {dev} away from its chord");
            return false;
        }
        if dev < self.max * 0.998 - self.tol {
            self.why = format!("points between #{i} and #{j} although the arc is only {dev} away from its chord");
            return false;
        }
        // the point with the tangent parallel to the chord, i.e. the furthest one
        let m = (x0 + x1) / 2.0;
        let dx = (x1 - x0).abs();
        let t = dx * 0.02 + self.tol + self.tol * self.f.h.abs() / dx.max(1e-300);
        let Some(s) = (i + 1..j).min_by(|a, b| (self.xs[*a] - m).abs().total_cmp(&(self.xs[*b] - m).abs())) else { return false };
        if (self.xs[s] - m).abs() > t {
            self.why = format!("the arc between points #{i} and #{j} is not split at its furthest point, nearest is #{s}");
            return false;
        }
        self.chk(i, s) && self.chk(s, j)
    }
}

/// An arc of a few ulps, and a distance below the rounding errors: whatever is found in between,
/// it ends, with few points, at the two end points.
fn tiny_arc<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let e = eps::<T>();
    let r = *rng.pick(&[1.0, 10.0, 200.0, 20000.0]);
    let rt = |x: f64| if T::F32 { x as f32 as f64 } else { x };
    let rd = |rng: &mut Rng| rt(rng.fr(-r, r));
    let a = (rd(rng), rd(rng));
    let b = (rd(rng), rd(rng));
    let l = dist(a, b);
    if l < 0.2 * r {
        return;
    }
    let f = Frame { a, u: ((b.0 - a.0) / l, (b.1 - a.1) / l), px: rng.fr(0.0, 1.0) * l, h: rng.fr(0.1, 1.0) * l * *rng.pick(&[1.0, -1.0]) };
    let c = f.from((f.px, f.h));
    let c = (rt(c.0), rt(c.1));
    let x0 = rng.fr(0.2, 0.8) * l;
    let s = f.from((x0, f.y(x0)));
    let s = (rt(s.0), rt(s.1));
    let nudge = |rng: &mut Rng, x: f64| rt(x + rng.range(-20, 20) as f64 * e * r);
    let t = (nudge(rng, s.0), nudge(rng, s.1));
    let max = rt(e * r * *rng.pick(&[1e-6, 0.001, 0.1, 1.0, 10.0]));
    o.input(|| format!("backend {} segment {:?}-{:?} cell point {:?} start {:?} end {:?} max_dist {}", T::NAME, a, b, c, s, t, max));
    let w = |p: (f64, f64)| vf2::<T>(p.0, p.1);
    let arc = VoronoiParabolicArc::<T>::new(Line2::new(w(a), w(b)), w(c), w(s), w(t));
    let mut h = Fnv::new();
    for p in [a, b, c, s, t, (max, 0.0)] {
        h.u(p.0.to_bits());
        h.u(p.1.to_bits());
    }
    o.nontrivial(h.0);
    o.n("arcs_of_a_few_ulps");
    let md = sc::<T::Scalar>(max);
    let two: Option<Vec<(f64, f64)>> = o.call("discretize_2d", || arc.discretize_2d(md).into_iter().map(f2).collect());
    let three: Option<Vec<(f64, f64)>> = o.call("discretize_3d", || arc.discretize_3d(md).into_iter().map(|p| (p.x().to(), p.y().to())).collect());
    for (name, out) in [("discretize_2d", two), ("discretize_3d", three)] {
        let Some(out) = out else { continue };
        let n = out.len();
        o.seen("points_per_tiny_arc", n as u64);
        let near = 200.0 * e * r;
        let ok = (2..10_000).contains(&n) && out[0] == s && out[n - 1] == t && out.iter().all(|p| dist(*p, s) <= near);
        let _ = o.check(ok, &format!("{name}:tiny"), || format!("{name}: {n} points {:?}", &out[..n.min(20)]));
    }
}
fn arc_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let e = eps::<T>();
    if rng.chance(1, 10) {
        return tiny_arc::<T>(rng, o);
    }
    let r = if rng.chance(2, 3) {
        *rng.pick(&[1.0, 10.0, 200.0])
    } else {
        o.n("very_small_or_large_coordinates");
        2f64.powi(if T::F32 { rng.range(-12, 16) } else { rng.range(-30, 60) } as i32)
    };
    let rd = |rng: &mut Rng| if T::F32 { rng.fr(-r, r) as f32 as f64 } else { rng.fr(-r, r) };
    let a = (rd(rng), rd(rng));
    let b = match rng.us(5) {
        0 => (a.0, rd(rng)),
        1 => (rd(rng), a.1),
        _ => (rd(rng), rd(rng)),
    };
    let l = dist(a, b);
    if l < 0.05 * r {
        return;
    }
    let degenerate = rng.chance(1, 12);
    let mut f = Frame { a, u: ((b.0 - a.0) / l, (b.1 - a.1) / l), px: rng.fr(-0.5, 1.5) * l, h: rng.fr(0.05, 1.5) * l };
    if rng.chance(1, 2) {
        f.h = -f.h;
    }
    let rt = |p: (f64, f64)| if T::F32 { (p.0 as f32 as f64, p.1 as f32 as f64) } else { p };
    let mut c = rt(f.from((f.px, f.h)));
    // now and then an arc that begins or ends beside the segment
    let (lo, hi) = if rng.chance(1, 4) { (-1.0, 2.0) } else { (0.0, 1.0) };
    let (x0, mut x1) = (rng.fr(lo, hi) * l, rng.fr(lo, hi) * l);
    if x0 < 0.0 || x0 > l || x1 < 0.0 || x1 > l {
        o.n("beside_the_segment");
    }
    let point_like = rng.chance(1, 12);
    if point_like {
        x1 = x0;
    }
    let (s, t);
    if degenerate {
        // the cell point is an end of the segment: the "parabola" is a straight line
        c = *rng.pick(&[a, b]);
        let w = f.to(c).0;
        s = rt(f.from((w, rng.fr(-1.0, 1.0) * l)));
        t = rt(f.from((w, rng.fr(-1.0, 1.0) * l)));
        o.n("cell_point_on_segment");
    } else {
        s = rt(f.from((x0, f.y(x0))));
        t = rt(f.from((x1, f.y(x1))));
    }
    // the arc as the library sees it
    let q = f.to(c);
    f.px = q.0;
    f.h = q.1;
    let ymax = if degenerate { l } else { [0.0, l, x0, x1].iter().fold(0.0f64, |m, x| m.max(f.y(*x).abs())) };
    let scale = ymax + l + r;
    let tol = 100.0 * e * scale * (1.0 + scale / l);
    let max = match rng.us(4) {
        0 => rng.fr(0.5, 2.0) * scale,
        1 => rng.fr(0.01, 0.1) * l,
        2 if !degenerate => f.dev(x0, x1) * *rng.pick(&[0.3, 0.9, 0.99, 1.01, 1.2]),
        _ => (0.5f64).powf(rng.fr(1.0, 12.0)) * l,
    };
    // now and then very many points
    let max = if !T::F32 && !degenerate && rng.chance(1, 4000) { f.dev(x0, x1) / rng.fr(1e5, 1e9) } else { max };
    let max = max.max(8.0 * tol);
    let max = if T::F32 { max as f32 as f64 } else { max };
    o.input(|| format!("backend {} segment {:?}-{:?} cell point {:?} start {:?} end {:?} max_dist {}", T::NAME, a, b, c, s, t, max));
    let w = |p: (f64, f64)| vf2::<T>(p.0, p.1);
    let arc = VoronoiParabolicArc::<T>::new(Line2::new(w(a), w(b)), w(c), w(s), w(t));
    let mut h = Fnv::new();
    for p in [a, b, c, s, t, (max, 0.0)] {
        h.u(p.0.to_bits());
        h.u(p.1.to_bits());
    }
    o.nontrivial(h.0);
    let md = sc::<T::Scalar>(max);
    let two: Option<Vec<F3>> = o.call("discretize_2d", || {
        arc.discretize_2d(md)
            .into_iter()
            .map(|p| {
                let q = f2(p);
                (q.0, q.1, -dist(q, c))
            })
            .collect()
    });
    let three: Option<Vec<F3>> = o.call("discretize_3d", || arc.discretize_3d(md).into_iter().map(|p| (p.x().to(), p.y().to(), p.z().to())).collect());
    for (name, out) in [("discretize_2d", two), ("discretize_3d", three)] {
        let Some(out) = out else { continue };
        let n = out.len();
        let ok = n >= 2 && (out[0].0, out[0].1) == s && (out[n - 1].0, out[n - 1].1) == t;
        if !o.check(ok, &format!("{name}:ends"), || format!("{name} does not start and end with the end points of the arc: {:?}", out)) {
            continue;
        }
        for p in &out {
            let want = -dist((p.0, p.1), c);
            let _ = o.check((p.2 - want).abs() <= tol, &format!("{name}:z"), || format!("{name}: z is not minus the distance to the cell point: {:?} want {}", p, want));
        }
        if degenerate || (point_like && s == t) {
            let _ = o.check(n == 2, &format!("{name}:degenerate"), || format!("{name}: {n} points {:?}", out));
            if point_like {
                o.n("start_equals_end");
            }
            continue;
        }
        o.add("arc_points", n as u64);
        o.seen("points_per_arc", n as u64);
        if n > 1000 {
            o.n("more_than_1000_points");
        }
        o.n(if n > 2 { "split_arcs" } else { "straight_arcs" });
        let q: Vec<(f64, f64)> = out.iter().map(|p| f.to((p.0, p.1))).collect();
        let mut ok = true;
        for (i, p) in out.iter().enumerate() {
            let d = dist((p.0, p.1), c);
            ok = ok
                && o.check((d - q[i].1.abs()).abs() <= tol && q[i].1 * f.h.signum() > -tol, &format!("{name}:on_parabola"), || {
                    format!("{name}: point #{i} {:?} is {} from the cell point but {} from the segment", p, d, q[i].1)
                });
        }
        let up = x1 > x0;
        let mono = q.windows(2).all(|w| if up { w[1].0 > w[0].0 - tol } else { w[1].0 < w[0].0 + tol });
        ok = ok && o.check(mono, &format!("{name}:monotone"), || format!("{name}: the points are not in order along the segment: {:?}", q));
        if ok {
            let xs: Vec<f64> = q.iter().map(|p| p.0).collect();
            let mut j = Judge { f: &f, xs: &xs, max, tol, why: String::new() };
            let ok = j.chk(0, n - 1);
            let why = j.why;
            let _ = o.check(ok, &format!("{name}:deviation"), || format!("{name}(max_dist {max}): {why}; points along the segment {:?}", xs));
        }
    }
    if let Some(v) = o.call("discretize_3d_straight_line", || arc.discretize_3d_straight_line().into_iter().map(|p| (p.x().to(), p.y().to(), p.z().to())).collect::<Vec<F3>>()) {
        let ok = v.len() == 2 && (v[0].0, v[0].1) == s && (v[1].0, v[1].1) == t && (v[0].2 + seg_dist(a, b, s)).abs() <= tol && (v[1].2 + dist(t, c)).abs() <= tol;
        let _ = o.check(ok, "discretize_3d_straight_line", || format!("got {:?}, expected z {} and {}", v, -seg_dist(a, b, s), -dist(t, c)));
    }
    if rng.chance(1, 8) {
        // the edge between two point cells, a segment without extent
        let arc = VoronoiParabolicArc::<T>::new(Line2::new(w(a), w(a)), w(c), w(s), w(t));
        o.n("segment_without_extent");
        if let Some(v) = o.call("discretize_3d_straight_line", || arc.discretize_3d_straight_line().into_iter().map(|p| (p.x().to(), p.y().to(), p.z().to())).collect::<Vec<F3>>()) {
            let ok = v.len() == 2 && (v[0].0, v[0].1) == s && (v[1].0, v[1].1) == t && (v[0].2 + dist(a, s)).abs() <= tol && (v[1].2 + dist(t, c)).abs() <= tol;
            let _ = o.check(ok, "discretize_3d_straight_line:no_extent", || format!("got {:?}, expected z {} and {}", v, -dist(a, s), -dist(t, c)));
        }
    }
}
trait ToF64 {
    fn to(self) -> f64;
}
impl<S: GenericScalar> ToF64 for S {
    fn to(self) -> f64 {
        self.into()
    }
}
use vector_traits::HasXYZ;
pub fn case_c16(rng: &mut Rng, o: &mut Obs) {
    let b = rng.us(5);
    dispatch2!(b, arc_case(rng, o));
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C15"))]
    Prop {
        id: "C15",
        case: case_c15,
        directed: &[],
        quick: 2_000_000,
        thorough: 80_000_000,
        threads: 8,
        rule: "2-D and 3-D polylines of 0-20 points (repeated points, closed) x distances (multiples of an edge, tiny, larger than everything, infinite); non-trivial: at least one edge",
        required: &["length_multiple_of_distance", "edges_without_length", "short_edges", "split_edges", "infinite_distance", "single_point", "empty", "very_small_or_large_coordinates", "more_than_65536_points"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C16"))]
    Prop {
        id: "C16",
        case: case_c16,
        directed: &[],
        quick: 1_400_000,
        thorough: 56_000_000,
        threads: 8,
        rule: "parabolic arcs on either side of a segment, in either direction, with and without extent, x max_dist",
        required: &["split_arcs", "straight_arcs", "start_equals_end", "cell_point_on_segment", "beside_the_segment", "segment_without_extent", "arcs_of_a_few_ulps", "more_than_1000_points", "very_small_or_large_coordinates"],
        assumptions: &[],
    },
];

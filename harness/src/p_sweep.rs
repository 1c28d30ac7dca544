//! C08 self intersection, C09 sweep line, C10 indexed sweep line
use crate::core::*;
use crate::dispatch2;
use crate::exact::*;
use crate::gen::*;
use crate::p_big::{large, Large};
use crate::rng::*;
use linestring::linestring_2d::{indexed_intersection::IntersectionTester, intersection::IntersectionData, Line2, LineString2};
use std::collections::{BTreeMap, BTreeSet};

type L = (P, P);

/// what the sweep has to report
#[derive(Default, Debug, Clone)]
pub struct Arrangement {
    /// (y, x) -> (lines through the point, is the point interior to one of them)
    pub points: BTreeMap<(Q, Q), (BTreeSet<usize>, bool)>,
    pub overlap: bool,
    pub tee: bool,
    pub concurrent: bool,
    pub shared_ends: bool,
    /// every event of the sweep is numerically separated from the others, see `separated()`
    pub clean: bool,
}

pub fn arrangement(lines: &[L]) -> Arrangement {
    let mut a = Arrangement::default();
    let is_end = |l: &L, x: Q, y: Q| (Q::int(l.0 .0) == x && Q::int(l.0 .1) == y) || (Q::int(l.1 .0) == x && Q::int(l.1 .1) == y);
    for i in 0..lines.len() {
        for j in i + 1..lines.len() {
            let pts: Vec<(Q, Q)> = match seg_inter(lines[i].0, lines[i].1, lines[j].0, lines[j].1) {
                Inter::None => vec![],
                Inter::Point(x, y) => vec![(x, y)],
                Inter::Overlap(p, q) => {
                    a.overlap = true;
                    vec![(Q::int(p.0), Q::int(p.1)), (Q::int(q.0), Q::int(q.1))]
                }
            };
            for (x, y) in pts {
                let (ei, ej) = (is_end(&lines[i], x, y), is_end(&lines[j], x, y));
                if ei != ej {
                    a.tee = true;
                }
                if ei && ej {
                    a.shared_ends = true;
                }
                let e = a.points.entry((y, x)).or_default();
                let _ = e.0.insert(i);
                let _ = e.0.insert(j);
                e.1 |= !ei || !ej;
            }
        }
    }
    a.clean = separated(lines, &a);
    a.concurrent = a.points.values().any(|e| e.1 && e.0.len() > 2);
    a
}

/// The events of the sweep are separated: where a crossing has to be computed (no line ends
/// there, and the lines are not all axis-parallel) exactly two lines meet, and it shares its
/// y coordinate with another event only on a horizontal line.
fn separated(lines: &[L], a: &Arrangement) -> bool {
    let mut rows: BTreeMap<Q, (BTreeSet<Q>, bool)> = BTreeMap::new();
    let mut ends: BTreeSet<(Q, Q)> = BTreeSet::new();
    for l in lines {
        for p in [l.0, l.1] {
            let _ = rows.entry(Q::int(p.1)).or_default().0.insert(Q::int(p.0));
            let _ = ends.insert((Q::int(p.1), Q::int(p.0)));
        }
    }
    for ((y, x), e) in &a.points {
        let r = rows.entry(*y).or_default();
        let _ = r.0.insert(*x);
        if ends.contains(&(*y, *x)) || e.0.iter().all(|i| lines[*i].0 .0 == lines[*i].1 .0 || lines[*i].0 .1 == lines[*i].1 .1) {
            continue;
        }
        if e.0.len() > 2 {
            return false;
        }
        r.1 = true;
    }
    rows.iter().all(|(y, (xs, computed))| {
        !computed || xs.len() == 1 || {
            let (lo, hi) = (*xs.iter().next().unwrap(), *xs.iter().last().unwrap());
            lines.iter().any(|l| l.0 .1 == l.1 .1 && Q::int(l.0 .1) == *y && Q::int(l.0 .0.min(l.1 .0)) <= lo && Q::int(l.0 .0.max(l.1 .0)) >= hi)
        }
    })
}

pub struct Rep {
    pub at: (f64, f64),
    pub lines: Vec<usize>,
}

/// compare a report with the exact arrangement
#[allow(clippy::too_many_arguments)]
fn judge(o: &mut Obs, name: &str, lines: &[L], a: &Arrangement, rep: &[Rep], ignore_ends: bool, first_only: bool, once: bool, tol: f64) {
    let want: Vec<((f64, f64), &BTreeSet<usize>)> = a.points.iter().filter(|(_, e)| !ignore_ends || e.1).map(|(k, e)| ((k.1.f(), k.0.f()), &e.0)).collect();
    let sig = format!("{name}{}{}{}{}", if a.overlap { "+overlap" } else { "" }, if a.tee { "+tee" } else { "" }, if a.concurrent { "+conc" } else { "" }, if a.shared_ends { "+ends" } else { "" });
    for r in rep {
        let s: BTreeSet<usize> = r.lines.iter().cloned().collect();
        // soundness
        let ok = s.len() >= 2 && s.iter().all(|i| *i < lines.len() && seg_dist(pf(lines[*i].0), pf(lines[*i].1), r.at) <= tol);
        let ok = ok && want.iter().any(|w| dist(w.0, r.at) <= tol && s.is_subset(w.1));
        if !o.check(ok, &format!("{sig}:spurious"), || format!("{name} (ignore_end_points {ignore_ends}): reported point {:?} lines {:?} is not a common point of these lines; lines {:?}", r.at, r.lines, lines)) {
            return;
        }
        let ok = r.lines.windows(2).all(|w| w[0] < w[1]);
        let _ = o.check(ok, &format!("{sig}:line_list"), || format!("{name}: involved lines not sorted or repeated at {:?}: {:?}; lines {:?}", r.at, r.lines, lines));
    }
    if first_only {
        // three or more lines in a point: the crossings of some of these lines may be computed
        // an ulp or so before that point, and before the other events of the same row
        let crowded = |w: &(f64, f64)| a.points.iter().any(|((y, _), e)| (y.f() - w.1).abs() <= tol && e.0.len() > 2);
        let ok = match (want.first(), rep.len()) {
            (None, 0) => true,
            (Some(w), 1) if crowded(&w.0) => !a.clean || (rep[0].at.1 - w.0 .1).abs() <= tol,
            (Some(w), 1) => !a.clean || (dist(w.0, rep[0].at) <= tol && (!once || rep[0].lines.iter().cloned().collect::<BTreeSet<_>>() == *w.1)),
            (Some(_), 0) => !a.clean,
            _ => false,
        };
        let _ = o.check(ok, &format!("{sig}:first"), || {
            format!("{name} (ignore_end_points {ignore_ends}): stop at first: got {:?}, expected {:?}; lines {:?}", rep.iter().map(|r| (r.at, &r.lines)).collect::<Vec<_>>(), want.first(), lines)
        });
        return;
    }
    if !a.clean {
        o.n("soundness_only");
        return;
    }
    if once {
        // a plain crossing of two lines is never reported twice
        for w in &want {
            let plain = w.1.len() == 2 && w.1.iter().all(|i| dist(pf(lines[*i].0), w.0) > tol && dist(pf(lines[*i].1), w.0) > tol);
            if plain {
                let k = rep.iter().filter(|r| dist(w.0, r.at) <= tol).count();
                let _ = o.check(k <= 1, &format!("{sig}:twice"), || format!("{name}: the crossing {:?} of lines {:?} is reported {k} times; lines {:?}", w.0, w.1, lines));
            }
        }
    }
    // completeness: one to one and in sweep order ...
    let ok = want.len() == rep.len() && want.iter().zip(rep.iter()).all(|(w, r)| dist(w.0, r.at) <= tol && r.lines.iter().cloned().collect::<BTreeSet<_>>() == *w.1);
    if ok {
        o.n("exact_reports");
        return;
    }
    // ... or split into several entries a rounding error apart, which together are right
    let mut missing = Vec::new();
    for w in &want {
        let mut u: BTreeSet<usize> = BTreeSet::new();
        for r in rep.iter() {
            if dist(w.0, r.at) <= tol {
                u.extend(r.lines.iter());
            }
        }
        if u != *w.1 {
            missing.push((w.0, w.1, u));
        }
    }
    let _ = o.check(missing.is_empty(), &format!("{sig}:set"), || {
        format!("{name} (ignore_end_points {ignore_ends}): expected {} intersections, got {}; wrong (point, expected, reported) {:?}; lines {:?}", want.len(), rep.len(), missing, lines)
    });
    let ok = rep.windows(2).all(|w| w[0].at.1 < w[1].at.1 + tol);
    let _ = o.check(ok, &format!("{sig}:order"), || format!("{name}: the entries are not in sweep order {:?}", rep.iter().map(|r| r.at).collect::<Vec<_>>()));
    o.n("split_reports");
}

fn flags(o: &mut Obs, a: &Arrangement) {
    if a.overlap {
        o.n("with_overlaps");
    }
    if a.tee {
        o.n("with_T_junctions");
    }
    if a.concurrent {
        o.n("with_3_or_more_lines_in_a_point");
    }
    if a.shared_ends {
        o.n("with_shared_end_points");
    }
    if !a.overlap && !a.tee && !a.concurrent {
        o.n("general_position");
    }
    o.add("intersection_points", a.points.len() as u64);
    o.seen("intersections_per_set", a.points.len() as u64);
}

fn line_set(rng: &mut Rng, r: i64, n: usize, kind: usize) -> Vec<L> {
    let mut v: Vec<L> = Vec::new();
    match kind {
        0 => {
            while v.len() < n {
                let (a, b, c, d) = seg_pair(rng, r);
                v.push((a, b));
                v.push((c, d));
            }
        }
        1 => {
            // axis-parallel lattice
            for _ in 0..n {
                let p = (rng.range(-r, r), rng.range(-r, r));
                let t = rng.range(-r, r);
                v.push(if rng.chance(1, 2) { (p, (t, p.1)) } else { (p, (p.0, t)) });
            }
        }
        2 => {
            // polyline
            let p = polyline(rng, n + 1, r);
            v = p.windows(2).map(|w| (w[0], w[1])).collect();
        }
        3 => {
            // short segments
            let s = (r / 4).max(1);
            for _ in 0..n {
                let p = (rng.range(-r, r), rng.range(-r, r));
                v.push((p, ((p.0 + rng.range(-s, s)).clamp(-r, r), (p.1 + rng.range(-s, s)).clamp(-r, r))));
            }
        }
        4 => {
            // long crossing lines
            for _ in 0..n {
                let (a, b) = (rng.range(-r, r), rng.range(-r, r));
                v.push(if rng.chance(1, 2) { ((-r, a), (r, b)) } else { ((a, -r), (b, r)) });
            }
        }
        5 => {
            // a star: many lines through one grid point
            let c = (rng.range(-r / 2, r / 2), rng.range(-r / 2, r / 2));
            for _ in 0..n {
                let d = (rng.range(-r / 2, r / 2), rng.range(-r / 2, r / 2));
                let p = (c.0 + d.0, c.1 + d.1);
                v.push(if rng.chance(2, 3) { (p, (c.0 - d.0, c.1 - d.1)) } else { (p, c) });
            }
        }
        _ => {
            for _ in 0..n {
                v.push(((rng.range(-r, r), rng.range(-r, r)), (rng.range(-r, r), rng.range(-r, r))));
            }
        }
    }
    v.retain(|l| l.0 != l.1);
    v.truncate(n);
    if rng.chance(1, 6) {
        // some lines of zero length: anywhere, at an end point, or inside another line
        for _ in 0..rng.ur(1, 3) {
            let p = match v.is_empty() {
                true => (rng.range(-r, r), rng.range(-r, r)),
                false => {
                    let l = *rng.pick(&v);
                    let m = (l.0 .0 + l.1 .0, l.0 .1 + l.1 .1);
                    match rng.us(4) {
                        0 => l.0,
                        1 => l.1,
                        2 if m.0 % 2 == 0 && m.1 % 2 == 0 => (m.0 / 2, m.1 / 2),
                        _ => (rng.range(-r, r), rng.range(-r, r)),
                    }
                }
            };
            let at = rng.us(v.len() + 1);
            v.insert(at, (p, p));
        }
    }
    v
}

/// Many lines through one point in which at least one line ends, and a few lines beside them that
/// some of the star's lines cross before or after that point; all events are separated.
fn stopped_star(rng: &mut Rng, r: i64) -> Vec<L> {
    for _ in 0..8 {
        let c = (rng.range(-r / 4, r / 4), rng.range(-r / 4, r / 4));
        let mut v: Vec<L> = Vec::new();
        let mut dirs: BTreeSet<P> = BTreeSet::new();
        let inside = |p: P| p.0.abs() <= r && p.1.abs() <= r;
        let arm = |rng: &mut Rng, d: P, k: i64| {
            let n = (1..=r).take_while(|n| inside((c.0 + k * n * d.0, c.1 + k * n * d.1))).count() as i64;
            let n = if n > 1 && rng.chance(1, 3) { rng.range(1, n) } else { n };
            (c.0 + k * n * d.0, c.1 + k * n * d.1)
        };
        for _ in 0..rng.ur(4, 24) {
            let d = (rng.range(-r, r), rng.range(-r, r));
            let g = gcd(d.0.unsigned_abs() as i128, d.1.unsigned_abs() as i128) as i64;
            if g == 0 {
                continue;
            }
            let d = (d.0 / g, d.1 / g);
            let d = if d < (0, 0) { (-d.0, -d.1) } else { d };
            if !inside((c.0 + d.0, c.1 + d.1)) || !inside((c.0 - d.0, c.1 - d.1)) || !dirs.insert(d) {
                continue;
            }
            v.push((arm(rng, d, 1), arm(rng, d, -1)));
        }
        if v.len() < 3 {
            continue;
        }
        // one of them stops (or starts) in the common point
        let i = rng.us(v.len());
        if rng.chance(1, 2) {
            v[i].0 = c;
        } else {
            v[i].1 = c;
        }
        for _ in 0..rng.us(4) {
            // beside the star: from below to above the common point, not through it
            let side = if rng.chance(1, 2) { 1 } else { -1 };
            let x = |rng: &mut Rng| (c.0 + side * rng.range(1, r)).clamp(-r, r);
            let l = ((x(rng), rng.range(-r, r)), (x(rng), rng.range(-r, r)));
            v.push(l);
        }
        v.retain(|l| l.0 != l.1);
        for i in (1..v.len()).rev() {
            v.swap(i, rng.us(i + 1));
        }
        for l in v.iter_mut() {
            if rng.chance(1, 2) {
                *l = (l.1, l.0);
            }
        }
        if arrangement(&v).clean {
            return v;
        }
    }
    Vec::new()
}

/// Lines with arbitrary coordinates in general position: whatever meets does so clearly, and
/// every other pair is clearly apart, as are the rows of the crossings. Built line by line.
fn general_set(rng: &mut Rng, r: i64, n: usize, m: f64, chain: bool, crossings: usize) -> Vec<L> {
    let m = m * r as f64;
    let mut v: Vec<L> = Vec::new();
    let mut end_rows: Vec<i64> = Vec::new();
    let mut rows: Vec<f64> = Vec::new();
    let reach = *rng.pick(&[r, r, r / 2, r / 4, r / 10]);
    let mut misses = 0;
    while v.len() < n && misses < 200 {
        misses += 1;
        let a = match (chain, v.last()) {
            (true, Some(l)) => l.1,
            (false, Some(_)) if rng.chance(1, 4) => {
                // at an end point of another line
                let l = *rng.pick(&v);
                if rng.chance(1, 2) {
                    l.0
                } else {
                    l.1
                }
            }
            _ => (rng.range(-r, r), rng.range(-r, r)),
        };
        let mut b = ((a.0 + rng.range(-reach, reach)).clamp(-r, r), (a.1 + rng.range(-reach, reach)).clamp(-r, r));
        match rng.us(10) {
            0 => b.1 = a.1,
            1 => b.0 = a.0,
            2 if !end_rows.is_empty() => b.1 = *rng.pick(&end_rows),
            3 if chain && v.len() > 2 => b = v[0].0,
            _ => {}
        }
        let c = (a, b);
        if dist(pf(a), pf(b)) <= 4.0 * m || (a.1 != b.1 && ((a.1 - b.1) as f64).abs() <= m) || (a.0 != b.0 && ((a.0 - b.0) as f64).abs() <= m) {
            continue;
        }
        let row_ok = |y: i64| end_rows.iter().all(|e| *e == y || ((*e - y) as f64).abs() > m) && rows.iter().all(|e| (*e - y as f64).abs() > m);
        if !row_ok(a.1) || !row_ok(b.1) {
            continue;
        }
        let mut new_rows: Vec<f64> = Vec::new();
        let ok = v.iter().all(|l| {
            let sin = vcross(sub(l.1, l.0), sub(b, a)) as f64 / (dist(pf(l.0), pf(l.1)) * dist(pf(a), pf(b)));
            let shared = [l.0, l.1].iter().filter(|p| **p == a || **p == b).count();
            let far = |p: P, s: L| seg_dist(pf(s.0), pf(s.1), pf(p)) > m;
            match seg_inter(l.0, l.1, a, b) {
                Inter::None => far(l.0, c) && far(l.1, c) && far(a, *l) && far(b, *l),
                Inter::Overlap(..) => false,
                Inter::Point(..) if shared == 1 => {
                    // the other ends are clearly apart
                    let (p, q) = (if l.0 == a || l.0 == b { l.1 } else { l.0 }, if a == l.0 || a == l.1 { b } else { a });
                    sin.abs() > 0.05 && far(p, c) && far(q, *l) || (sin.abs() <= 0.05 && vdot(sub(p, if p == l.1 { l.0 } else { l.1 }), sub(q, if q == b { a } else { b })) < 0 && sin.abs() > 0.001)
                }
                Inter::Point(_, y) => {
                    let y = y.f();
                    let ok = sin.abs() > 0.05 && far(l.0, c) && far(l.1, c) && far(a, *l) && far(b, *l);
                    let ok = ok && rows.iter().chain(new_rows.iter()).all(|e| (*e - y).abs() > m) && end_rows.iter().chain([a.1, b.1].iter()).all(|e| (*e as f64 - y).abs() > m);
                    new_rows.push(y);
                    ok && rows.len() + new_rows.len() <= crossings
                }
            }
        });
        if !ok {
            continue;
        }
        rows.extend(new_rows);
        end_rows.extend([a.1, b.1]);
        v.push(c);
        misses = 0;
        if chain && v.len() > 2 && b == v[0].0 {
            break;
        }
    }
    v
}
/// radius, clearance, scale for `general_set`
fn general_domain<T: Backend2>(rng: &mut Rng) -> (i64, f64, f64) {
    let r = if T::F32 { 1i64 << rng.range(12, 20) } else { 1i64 << rng.range(16, 20) };
    // coordinates of 2^8 to 2^30: the clearance is no match for an absolute epsilon
    let k = 2f64.powi(rng.range(8, if T::F32 { 24 } else { 30 }) as i32) / r as f64;
    (r, if T::F32 { 1e-3 } else { 1e-5 }, k)
}
fn general_lines<T: Backend2>(rng: &mut Rng, o: &mut Obs, chain: bool) -> (Vec<L>, i64, f64) {
    let (r, m, k) = general_domain::<T>(rng);
    let n = match rng.us(5) {
        0 => rng.ur(2, 5),
        1..=3 => rng.ur(3, 20),
        _ => rng.ur(20, 60),
    };
    let limit = *rng.pick(&[0, 1, 2, 5, 400, 400]);
    let mut v = general_set(rng, r, n, m, chain, limit);
    if !chain {
        for l in v.iter_mut() {
            if rng.chance(1, 2) {
                *l = (l.1, l.0);
            }
        }
    }
    o.n("rounded_coordinates");
    (v, r, k)
}

/// Two to four lines, some of which just cross or just miss the end of another one: by little,
/// but by far more than what rounding of the products can do.
fn close_lines<T: Backend2>(rng: &mut Rng, o: &mut Obs, chain: bool) -> Option<(Vec<L>, i64, f64)> {
    let r = 1i64 << if T::F32 { rng.range(14, 20) } else { rng.range(20, 24) };
    let k = 2f64.powi(rng.range(8, if T::F32 { 24 } else { 30 }) as i32) / r as f64;
    let e = eps::<T>();
    let n = rng.ur(2, 4);
    let mut v: Vec<L> = vec![];
    for i in 0..n {
        let a = match v.last() {
            Some(l) if chain => l.1,
            _ => (rng.range(-r, r), rng.range(-r, r)),
        };
        let mut b = (rng.range(-r, r), rng.range(-r, r));
        if i > 0 && !(chain && i == 1) && rng.chance(3, 4) {
            let l = *rng.pick(&v);
            let d = r as f64 * 10f64.powf(rng.fr(-7.5, -1.0));
            let off = |rng: &mut Rng| (rng.fr(-1.0, 1.0) * d).round() as i64;
            // at an end of another line, or somewhere on it
            let q = if rng.chance(1, 2) {
                *rng.pick(&[l.0, l.1])
            } else {
                let t = rng.f();
                (l.0 .0 + (t * (l.1 .0 - l.0 .0) as f64) as i64, l.0 .1 + (t * (l.1 .1 - l.0 .1) as f64) as i64)
            };
            let w = (q.0 + off(rng) - a.0, q.1 + off(rng) - a.1);
            let s = if rng.chance(1, 2) { 1.0 } else { rng.fr(1.0, 2.0) };
            b = (a.0 + (w.0 as f64 * s) as i64, a.1 + (w.1 as f64 * s) as i64);
        }
        if b.0.abs().max(b.1.abs()) > r || dist(pf(a), pf(b)) < r as f64 / 10.0 {
            return None;
        }
        v.push((a, b));
    }
    let m = 1024.0 * e * r as f64;
    let mut rows: Vec<f64> = vec![];
    let apart = |rows: &mut Vec<f64>, y: f64| {
        let ok = rows.iter().all(|e| (e - y).abs() > m);
        rows.push(y);
        ok
    };
    for (i, l) in v.iter().enumerate() {
        if (!chain || i == 0) && !apart(&mut rows, l.0 .1 as f64) || !apart(&mut rows, l.1 .1 as f64) {
            return None;
        }
    }
    for i in 0..v.len() {
        for j in 0..i {
            let (l, c) = (v[j], v[i]);
            if chain && j + 1 == i {
                let sin = vcross(sub(l.1, l.0), sub(c.1, c.0)) as f64 / (dist(pf(l.0), pf(l.1)) * dist(pf(c.0), pf(c.1)));
                if sin.abs() < 0.05 {
                    return None;
                }
                continue;
            }
            match crate::p_seg::clear_params(l.0, l.1, c.0, c.1, e) {
                None => return None,
                Some((false, ..)) => o.n("close_misses"),
                Some((true, t, _)) => {
                    let sin = vcross(sub(l.1, l.0), sub(c.1, c.0)) as f64 / (dist(pf(l.0), pf(l.1)) * dist(pf(c.0), pf(c.1)));
                    if sin.abs() < 0.05 || !apart(&mut rows, l.0 .1 as f64 + t * (l.1 .1 - l.0 .1) as f64) {
                        return None;
                    }
                }
            }
        }
    }
    if !chain {
        for l in v.iter_mut() {
            if rng.chance(1, 2) {
                *l = (l.1, l.0);
            }
        }
    }
    Some((v, r, k))
}

pub fn sweep_domain<T: Backend2>(rng: &mut Rng, o: &mut Obs) -> (i64, f64, usize) {
    // radius such that two different intersection points are never within the
    // library's 4 ulps of each other
    let r = if T::F32 { *rng.pick(&[2, 3, 4]) } else { *rng.pick(&[2, 3, 5, 10, 30, 100]) };
    let k = seg_scale(rng, o, T::F32);
    let n = match rng.us(6) {
        0..=2 => rng.ur(2, 5),
        3 | 4 => rng.ur(3, 12),
        _ => rng.ur(8, 30),
    };
    (r, k, n)
}

fn sweep_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 4) {
        let chain = rng.chance(1, 3);
        let Some((lines, r, k)) = (if rng.chance(1, 3) { close_lines::<T>(rng, o, chain) } else { Some(general_lines::<T>(rng, o, chain)) }) else {
            return;
        };
        let mut a = arrangement(&lines);
        a.clean = true;
        run_sweep::<T>(rng, o, &lines, a, k, 1280.0 * eps::<T>() * r as f64);
        return;
    }
    let (r, k, n) = sweep_domain::<T>(rng, o);
    let kind = rng.us(8);
    let lines = if kind == 7 { stopped_star(rng, r) } else { line_set(rng, r, n, kind) };
    if kind == 7 && lines.is_empty() {
        return;
    }
    let a = arrangement(&lines);
    if kind == 7 && lines.len() > 6 {
        o.n("stars_with_a_stop");
    }
    run_sweep::<T>(rng, o, &lines, a, k, 64.0 * eps::<T>() * r as f64);
}

fn run_sweep<T: Backend2>(rng: &mut Rng, o: &mut Obs, lines: &[L], a: Arrangement, k: f64, tol: f64) {
    if lines.iter().any(|l| l.0 == l.1) {
        o.n("with_zero_length_lines");
    }
    o.input(|| format!("backend {} scale {} lines {:?}", T::NAME, k, lines));
    flags(o, &a);
    let mut h = Fnv::new();
    for l in lines {
        h.pts(&[l.0, l.1]);
    }
    if !a.points.is_empty() {
        o.nontrivial(h.0);
    }
    let tl: Vec<Line2<T>> = lines.iter().map(|l| Line2::new(v2(l.0, k), v2(l.1, k))).collect();
    let ignore = rng.chance(1, 2);
    // the lines can be added in several portions
    let cut = if rng.chance(1, 4) { rng.us(tl.len() + 1) } else { tl.len() };
    if cut < tl.len() && cut > 0 {
        o.n("added_in_two_portions");
    }
    for first in [false, true] {
        let res = o.call("IntersectionData", || -> Result<(Vec<Rep>, usize), String> {
            let d = IntersectionData::<T>::default()
                .with_ignore_end_point_intersections(ignore)
                .and_then(|d| d.with_stop_at_first_intersection(first))
                .and_then(|d| d.with_lines(tl[..cut].iter().cloned()))
                .and_then(|d| if cut < tl.len() { d.with_lines(tl[cut..].iter().cloned()) } else { Ok(d) })
                .map_err(|e| format!("{e:?}"))?;
            // the lines as the sweep sees them: directed upwards, in the order added
            let up = d.get_lines().len() == tl.len()
                && d.get_lines().iter().zip(tl.iter()).all(|(g, l)| {
                    let (s, e) = (f2(g.start), f2(g.end));
                    ((g.start == l.start && g.end == l.end) || (g.start == l.end && g.end == l.start)) && (s.1, s.0) <= (e.1, e.0)
                });
            if !up {
                return Err(format!("get_lines() of {:?} is {:?}", tl, d.get_lines()));
            }
            let it = d.compute().map_err(|e| format!("{e:?}"))?;
            let len = it.len();
            Ok((
                it.map(|(p, l)| {
                    let q = f2(p);
                    Rep { at: (q.0 / k, q.1 / k), lines: l }
                })
                .collect(),
                len,
            ))
        });
        if let Some(Ok((rep, len))) = &res {
            let _ = o.check(*len == rep.len(), "IntersectionData:len", || format!("len() {} but {} entries", len, rep.len()));
        }
        match res.map(|r| r.map(|r| r.0)) {
            Some(Ok(rep)) => judge(o, "IntersectionData", lines, &a, &rep, ignore, first, true, tol),
            Some(Err(e)) => o.fail("IntersectionData:err", format!("error {e} on finite input {:?}", lines)),
            None => {}
        }
    }
}
pub fn case_c09(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 2000) {
        return large(Large::Sweep, rng, o);
    }
    let b = rng.us(5);
    dispatch2!(b, sweep_case(rng, o));
}

fn indexed_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let general = rng.chance(1, 4);
    let (lines, r, k) = if general {
        let chain = rng.chance(1, 3);
        match if rng.chance(1, 3) { close_lines::<T>(rng, o, chain) } else { Some(general_lines::<T>(rng, o, chain)) } {
            Some(x) => x,
            None => return,
        }
    } else {
        let (r, k, n) = sweep_domain::<T>(rng, o);
        let kind = rng.us(8);
        if kind == 7 {
            let lines = stopped_star(rng, r);
            if lines.len() < 3 {
                return;
            }
            if lines.len() > 6 {
                o.n("stars_with_a_stop");
            }
            (lines, r, k)
        } else {
            (line_set(rng, r, n, kind), r, k)
        }
    };
    // the vertex table: shared, duplicated and unused vertices, in any order
    let share = rng.us(4);
    let mut table: Vec<P> = Vec::new();
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for _ in 0..rng.us(4) {
        table.push((rng.range(-r, r), rng.range(-r, r)));
    }
    for l in &lines {
        let mut ix = [0usize; 2];
        for (j, p) in [l.0, l.1].into_iter().enumerate() {
            let found = table.iter().position(|q| *q == p);
            ix[j] = match found {
                Some(i) if share > 0 && (share > 1 || rng.chance(1, 2)) => i,
                _ => {
                    table.push(p);
                    table.len() - 1
                }
            };
        }
        edges.push((ix[0], ix[1]));
    }
    if rng.chance(1, 3) {
        // shuffle the table
        let mut perm: Vec<usize> = (0..table.len()).collect();
        rng.shuffle(&mut perm);
        let mut t2 = table.clone();
        for (i, j) in perm.iter().enumerate() {
            t2[*j] = table[i];
        }
        for e in edges.iter_mut() {
            *e = (perm[e.0], perm[e.1]);
        }
        table = t2;
    }
    let mut a = arrangement(&lines);
    a.clean |= general;
    if lines.iter().any(|l| l.0 == l.1) {
        o.n("with_zero_length_lines");
    }
    o.input(|| format!("backend {} scale {} vertices {:?} edges {:?}", T::NAME, k, table, edges));
    flags(o, &a);
    let mut h = Fnv::new();
    h.pts(&table);
    for e in &edges {
        h.u(e.0 as u64);
        h.u(e.1 as u64);
    }
    if !a.points.is_empty() {
        o.nontrivial(h.0);
    }
    let tol = if general { 1280.0 } else { 64.0 } * eps::<T>() * r as f64;
    let tv: Vec<T> = table.iter().map(|p| v2(*p, k)).collect();
    let ignore = rng.chance(1, 2);
    let cut = if rng.chance(1, 4) { rng.us(edges.len() + 1) } else { edges.len() };
    if cut < edges.len() && cut > 0 {
        o.n("added_in_two_portions");
    }
    for first in [false, true] {
        let res = o.call("IntersectionTester", || -> Result<(Vec<T>, Vec<(usize, Vec<usize>)>, usize), String> {
            let d = IntersectionTester::<T>::new(tv.clone())
                .with_ignore_end_point_intersections(ignore)
                .and_then(|d| d.with_stop_at_first_intersection(first))
                .and_then(|d| d.with_edges(edges[..cut].iter()))
                .and_then(|d| if cut < edges.len() { d.with_edges(edges[cut..].iter()) } else { Ok(d) })
                .map_err(|e| format!("{e:?}"))?;
            if d.get_lines() != &edges[..] {
                return Err(format!("get_lines() is {:?}", d.get_lines()));
            }
            let (v, it) = d.compute().map_err(|e| format!("{e:?}"))?;
            let l = it.len();
            Ok((v, it.collect(), l))
        });
        match res {
            Some(Ok((v, rep, len))) => {
                let ok = v.len() >= tv.len() && v.iter().zip(tv.iter()).all(|(a, b)| a == b);
                let _ = o.check(ok, "IntersectionTester:prefix", || format!("the returned vertices {:?} do not start with the input vertices {:?}", v, tv));
                let _ = o.check(len == rep.len(), "IntersectionTester:len", || format!("len() {} but {} entries", len, rep.len()));
                let ok = rep.iter().all(|e| e.0 < v.len()) && rep.iter().map(|e| e.0).collect::<BTreeSet<_>>().len() == rep.len();
                if !o.check(ok, "IntersectionTester:index", || format!("invalid or repeated vertex index in {:?}, {} vertices", rep, v.len())) {
                    continue;
                }
                let rep: Vec<Rep> = rep
                    .into_iter()
                    .map(|(i, l)| {
                        let q = f2(v[i]);
                        Rep { at: (q.0 / k, q.1 / k), lines: l }
                    })
                    .collect();
                judge(o, "IntersectionTester", &lines, &a, &rep, ignore, first, false, tol)
            }
            Some(Err(e)) => o.fail("IntersectionTester:err", format!("error {e} on finite input {:?}", lines)),
            None => {}
        }
    }
}
pub fn case_c10(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 2000) {
        return large(Large::IndexedSweep, rng, o);
    }
    let b = rng.us(5);
    dispatch2!(b, indexed_case(rng, o));
}

/// a polyline that does not intersect itself (checked by the caller)
fn simple_polyline(rng: &mut Rng, n: usize, r: i64) -> Vec<P> {
    let mut v: Vec<P> = Vec::new();
    match rng.us(4) {
        0 => {
            // monotone chain
            v = (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r))).collect();
            v.sort_unstable();
        }
        1 => {
            // star-shaped loop
            let mut m: BTreeMap<(i64, i64), P> = BTreeMap::new();
            for _ in 0..n {
                let p = (rng.range(-r, r), rng.range(-r, r));
                if p != (0, 0) {
                    let g = gcd(p.0.unsigned_abs() as i128, p.1.unsigned_abs() as i128) as i64;
                    let _ = m.insert((p.0 / g, p.1 / g), p);
                }
            }
            v = m.into_values().collect();
            v.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).total_cmp(&(b.1 as f64).atan2(b.0 as f64)));
            if rng.chance(2, 3) && !v.is_empty() {
                v.push(v[0]);
            }
        }
        2 => {
            // rectangular spiral
            let (mut x, mut y) = (0i64, 0i64);
            v.push((x, y));
            for i in 0..n as i64 {
                let l = i / 2 + 1;
                match i % 4 {
                    0 => x += l,
                    1 => y += l,
                    2 => x -= l,
                    _ => y -= l,
                }
                if x.abs() > r || y.abs() > r {
                    break;
                }
                v.push((x, y));
            }
        }
        _ => v = polyline(rng, n, r),
    }
    if rng.chance(1, 2) {
        v.iter_mut().for_each(|p| *p = (p.1, p.0));
    }
    if rng.chance(1, 2) {
        v.reverse();
    }
    v
}

/// Do two edges share a point that is not an end point of both
pub fn self_intersects(v: &[P]) -> bool {
    let l: Vec<L> = v.windows(2).map(|w| (w[0], w[1])).collect();
    for i in 0..l.len() {
        for j in i + 1..l.len() {
            match seg_inter(l[i].0, l[i].1, l[j].0, l[j].1) {
                Inter::None => {}
                Inter::Overlap(..) => return true,
                Inter::Point(x, y) => {
                    let is = |p: P| Q::int(p.0) == x && Q::int(p.1) == y;
                    if !((is(l[i].0) || is(l[i].1)) && (is(l[j].0) || is(l[j].1))) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

/// polylines with arbitrary coordinates, in general position
fn self_general<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let (lines, k) = if rng.chance(1, 2) {
        match close_lines::<T>(rng, o, true) {
            Some((l, _, k)) => (l, k),
            None => return,
        }
    } else {
        let (l, _, k) = general_lines::<T>(rng, o, true);
        (l, k)
    };
    if lines.is_empty() {
        return;
    }
    let mut v: Vec<P> = vec![lines[0].0];
    v.extend(lines.iter().map(|l| l.1));
    if rng.chance(1, 2) {
        v.reverse();
    }
    judge_self::<T>(o, &v, k);
}
/// petals: a polyline which returns to the same vertex again and again, with rounded coordinates;
fn self_petals<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    let (r, _, k) = general_domain::<T>(rng);
    let rf = r as f64;
    let n = rng.ur(2, 9);
    let gap = std::f64::consts::TAU / (n as f64 + 1.0);
    let c = (rng.range(-r / 4, r / 4), rng.range(-r / 4, r / 4));
    let turn = rng.fr(0.0, 7.0);
    let q: Vec<P> = (0..n)
        .map(|i| {
            let (a, d) = (turn + gap * (i as f64 + rng.fr(-0.3, 0.3)), rng.fr(0.2, 0.7) * rf);
            (c.0 + (a.cos() * d) as i64, c.1 + (a.sin() * d) as i64)
        })
        .collect();
    // the tips two by two: P q0 q1 P q2 q3 P ...
    let mut v = vec![];
    if rng.chance(1, 2) {
        v.push(c);
    }
    let off = rng.us(2);
    for (i, p) in q.iter().enumerate() {
        v.push(*p);
        if i % 2 == off {
            v.push(c);
        }
    }
    v.dedup();
    if rng.chance(1, 2) {
        v.reverse();
    }
    o.n("touching_itself_in_a_vertex");
    judge_self::<T>(o, &v, k);
}
fn self_case<T: Backend2>(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 10) {
        self_petals::<T>(rng, o);
        return;
    }
    if rng.chance(1, 5) {
        self_general::<T>(rng, o);
        return;
    }
    let r = if T::F32 { *rng.pick(&[2, 3, 4, 4, 20, 100]) } else { *rng.pick(&[2, 3, 5, 10, 30, 100]) };
    let k = seg_scale(rng, o, T::F32);
    let n = match rng.us(4) {
        0 => rng.ur(2, 5),
        1 | 2 => rng.ur(6, 14),
        _ => rng.ur(10, 40),
    };
    let mut v = simple_polyline(rng, n, r);
    if v.len() > 2 && rng.chance(1, 2) {
        // disturb one vertex
        let i = rng.us(v.len());
        let j = rng.us(v.len() - 1);
        match rng.us(6) {
            0 => v[i] = (rng.range(-r, r), rng.range(-r, r)),
            1 => v[i] = v[j],
            2 => {
                let m = (v[j].0 + v[j + 1].0, v[j].1 + v[j + 1].1);
                if m.0 % 2 == 0 && m.1 % 2 == 0 {
                    v[i] = (m.0 / 2, m.1 / 2);
                }
            }
            3 => {
                // fold back
                v.insert(j + 1, v[j]);
                let q = v[j + 2];
                v.insert(j + 1, q);
            }
            4 => {
                // partial fold back
                let (p, q) = (v[j], v[j + 1]);
                let m = (p.0 + q.0, p.1 + q.1);
                if m.0 % 2 == 0 && m.1 % 2 == 0 {
                    v.insert(j + 2, (m.0 / 2, m.1 / 2));
                }
            }
            _ => {
                // retrace an edge
                let (p, q) = (v[j], v[j + 1]);
                let at = rng.us(v.len());
                if rng.chance(1, 2) {
                    v.insert(at, p);
                    v.insert(at, q);
                } else {
                    v.insert(at, q);
                    v.insert(at, p);
                }
            }
        }
    }
    v.dedup();
    if rng.chance(1, 6) && !v.is_empty() {
        // repeated points make no difference
        o.n("with_repeated_points");
        for _ in 0..rng.ur(1, 3) {
            let i = rng.us(v.len());
            v.insert(i, v[i]);
        }
    }
    let want = v.len() > 2 && self_intersects(&v);
    let lines: Vec<L> = v.windows(2).map(|w| (w[0], w[1])).collect();
    // a repeated point within the tolerance of intersect_line_point of another line: no defined answer
    let near = |p: &L| p.0 == p.1 && lines.iter().any(|l| crate::p_seg::ambiguous::<T>(l.0, l.1, p.0, p.1, k));
    if lines.iter().any(near) {
        o.n("within_tolerance_skipped");
        return;
    }
    if want && v.len() >= 10 {
        // where two computed crossings can not be told apart nothing is promised
        if !arrangement(&lines).clean || (T::F32 && r > 4) {
            o.n("skipped_not_separated");
            return;
        }
    }
    judge_self::<T>(o, &v, k);
}
fn judge_self<T: Backend2>(o: &mut Obs, v: &[P], k: f64) {
    let want = v.len() > 2 && self_intersects(v);
    o.input(|| format!("backend {} scale {} points {:?}", T::NAME, k, v));
    let mut h = Fnv::new();
    h.pts(v);
    o.nontrivial(h.0);
    o.n(match (want, v.len() < 10) {
        (true, true) => "intersecting_brute_force",
        (true, false) => "intersecting_sweep_line",
        (false, true) => "simple_brute_force",
        (false, false) => "simple_sweep_line",
    });
    if v.len() > 3 && v.first() == v.last() {
        o.n("closed");
    }
    let tv: Vec<T> = v.iter().map(|p| v2(*p, k)).collect();
    let res = o.call("is_self_intersecting", || tv.is_self_intersecting().map_err(|e| format!("{e:?}")));
    let path = if v.len() < 10 { "brute" } else { "sweep" };
    match res {
        Some(Ok(got)) => {
            let _ = o.check(got == want, &format!("is_self_intersecting:{path}:{want}"), || format!("is_self_intersecting() is {got}, expected {want}; points {:?}", v));
        }
        Some(Err(e)) => o.fail("is_self_intersecting:err", format!("error {e} on {:?}", v)),
        None => {}
    }
}
pub fn case_c08(rng: &mut Rng, o: &mut Obs) {
    if rng.chance(1, 30000) {
        return large(Large::SelfIntersection, rng, o);
    }
    let b = rng.us(5);
    dispatch2!(b, self_case(rng, o));
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C08"))]
    Prop {
        id: "C08",
        case: case_c08,
        directed: &[],
        quick: 1_500_000,
        thorough: 60_000_000,
        threads: 0,
        rule: "polylines: monotone chains, star-shaped loops, spirals, random walks, half of them with one disturbed vertex; distinct polylines",
        required: &["large_inputs", "close_misses", "intersecting_brute_force", "intersecting_sweep_line", "simple_brute_force", "simple_sweep_line", "closed", "with_repeated_points", "rounded_coordinates", "touching_itself_in_a_vertex"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C10"))]
    Prop {
        id: "C10",
        case: case_c10,
        directed: &[],
        quick: 300_000,
        thorough: 12_000_000,
        threads: 0,
        rule: "line sets of 8 shapes with shared, duplicated, unused and shuffled vertices; non-trivial: at least one intersection point",
        required: &["large_inputs", "close_misses", "stars_with_a_stop", "with_overlaps", "with_T_junctions", "with_3_or_more_lines_in_a_point", "with_shared_end_points", "general_position", "exact_reports", "added_in_two_portions", "with_zero_length_lines", "rounded_coordinates"],
        assumptions: &[],
    },
    #[cfg(any(feature = "all", feature = "C09"))]
    Prop {
        id: "C09",
        case: case_c09,
        directed: &[],
        quick: 300_000,
        thorough: 12_000_000,
        threads: 0,
        rule: "line sets of 8 shapes; non-trivial: at least one intersection point",
        required: &["large_inputs", "close_misses", "stars_with_a_stop", "with_overlaps", "with_T_junctions", "with_3_or_more_lines_in_a_point", "with_shared_end_points", "general_position", "added_in_two_portions", "with_zero_length_lines", "rounded_coordinates"],
        assumptions: &[],
    },
];

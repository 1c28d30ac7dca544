//! Exact reference geometry on integer coordinates.  Shares no code with the library.
use std::cmp::Ordering;

pub type P = (i64, i64);

pub fn cross(a: P, b: P, c: P) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}
pub fn vcross(a: P, b: P) -> i128 {
    a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
}
pub fn vdot(a: P, b: P) -> i128 {
    a.0 as i128 * b.0 as i128 + a.1 as i128 * b.1 as i128
}
pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
pub fn d2(a: P, b: P) -> i128 {
    let d = sub(a, b);
    vdot(d, d)
}

/// Strictly convex hull (extreme points only), CCW, starting at lowest (x, then y).
/// Monotone chain.  1 point -> [p]; collinear -> the two extremes.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut v = pts.to_vec();
    v.sort_unstable();
    v.dedup();
    if v.len() <= 2 {
        return v;
    }
    let mut lower: Vec<P> = Vec::new();
    for &p in &v {
        while lower.len() >= 2 && cross(lower[lower.len() - 2], lower[lower.len() - 1], p) <= 0 {
            let _ = lower.pop();
        }
        lower.push(p);
    }
    let mut upper: Vec<P> = Vec::new();
    for &p in v.iter().rev() {
        while upper.len() >= 2 && cross(upper[upper.len() - 2], upper[upper.len() - 1], p) <= 0 {
            let _ = upper.pop();
        }
        upper.push(p);
    }
    let _ = lower.pop();
    let _ = upper.pop();
    lower.extend(upper);
    lower
}

/// position of p relative to a strictly convex CCW polygon with >= 3 vertices:
/// 1 strictly inside, 0 on the boundary, -1 outside
pub fn in_convex(h: &[P], p: P) -> i32 {
    let mut on = false;
    for i in 0..h.len() {
        let c = cross(h[i], h[(i + 1) % h.len()], p);
        if c < 0 {
            return -1;
        }
        if c == 0 {
            on = true;
        }
    }
    if on {
        0
    } else {
        1
    }
}

pub fn on_segment(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}

/// a rational number with positive denominator
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d < 0 {
            Q { n: -n, d: -d }
        } else {
            Q { n, d }
        }
    }
    pub fn int(n: i64) -> Q {
        Q { n: n as i128, d: 1 }
    }
    pub fn f(self) -> f64 {
        // exact integer part plus a rounded fraction
        let i = self.n.div_euclid(self.d);
        let r = self.n.rem_euclid(self.d);
        i as f64 + r as f64 / self.d as f64
    }
    pub fn red(self) -> Q {
        let g = gcd(self.n.abs(), self.d);
        if g <= 1 {
            self
        } else {
            Q { n: self.n / g, d: self.d / g }
        }
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.n * o.d == o.n * self.d
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        (self.n * o.d).cmp(&(o.n * self.d))
    }
}
pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}

/// exact intersection of two closed segments
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inter {
    None,
    /// a single point
    Point(Q, Q),
    /// a proper shared sub-segment (integer end points, both are input end points)
    Overlap(P, P),
}

pub fn seg_inter(a: P, b: P, c: P, d: P) -> Inter {
    if a == b {
        return if on_segment(c, d, a) { Inter::Point(Q::int(a.0), Q::int(a.1)) } else { Inter::None };
    }
    if c == d {
        return if on_segment(a, b, c) { Inter::Point(Q::int(c.0), Q::int(c.1)) } else { Inter::None };
    }
    let r = sub(b, a);
    let s = sub(d, c);
    let rxs = vcross(r, s);
    let qp = sub(c, a);
    if rxs == 0 {
        if vcross(qp, r) != 0 {
            return Inter::None;
        }
        let (mut a, mut b, mut c, mut d) = (a, b, c, d);
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if c > d {
            std::mem::swap(&mut c, &mut d);
        }
        let lo = a.max(c);
        let hi = b.min(d);
        return match lo.cmp(&hi) {
            Ordering::Less => Inter::Overlap(lo, hi),
            Ordering::Equal => Inter::Point(Q::int(lo.0), Q::int(lo.1)),
            Ordering::Greater => Inter::None,
        };
    }
    let t = Q::new(vcross(qp, s), rxs);
    let u = Q::new(vcross(qp, r), rxs);
    if t.n < 0 || t.n > t.d || u.n < 0 || u.n > u.d {
        return Inter::None;
    }
    let x = Q::new(a.0 as i128 * t.d + r.0 as i128 * t.n, t.d).red();
    let y = Q::new(a.1 as i128 * t.d + r.1 as i128 * t.n, t.d).red();
    Inter::Point(x, y)
}

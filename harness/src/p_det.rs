//! C23 the same input gives the same answer: repeated, on another thread, for another vector type
use crate::core::*;
use crate::gen::*;
use crate::p_hull::pool;
use crate::rng::*;
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Aabb2, Intersection, Line2, LineString2, SimpleAffine, VoronoiParabolicArc};
use linestring::linestring_3d::{save_to_obj_file, Aabb3, Line3, LineString3, Plane};
use linestring::prelude::{divide_into_shapes, indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};
use vector_traits::num_traits::AsPrimitive;
use vector_traits::HasXY;

type Answers = Vec<(&'static str, String)>;

pub struct Job {
    v: Vec<(f64, f64, f64)>,
    probe: ((f64, f64), (f64, f64)),
    tol: f64,
    del: usize,
    chunk: usize,
    sweep: bool,
    edges: Vec<usize>,
    scratch: Option<std::path::PathBuf>,
}

fn w2<T: Backend2>(v: Vec<T>) -> String {
    v.into_iter().map(|p| t2(p)).collect::<Vec<_>>().join(" ")
}
fn t2<T: Backend2>(p: T) -> String {
    let q = f2(p);
    format!("({:?},{:?})", q.0 + 0.0, q.1 + 0.0)
}
fn ti<T: Backend2>(i: Intersection<T>) -> String {
    match i {
        Intersection::Intersection(p) => t2(p),
        Intersection::Overlap(l) => format!("{}-{}", t2(l.start), t2(l.end)),
    }
}

/// every computation of the library on one line string
fn ask2<T: Backend2>(j: &Job) -> Answers
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let mut a: Answers = Vec::new();
    let v: Vec<T> = j.v.iter().map(|p| vf2(p.0, p.1)).collect();
    let n = v.len();
    let ind: Vec<usize> = (0..n).rev().collect();
    let s = |x: f64| sc::<T::Scalar>(x);
    let probe = Line2::<T>::new(vf2(j.probe.0 .0, j.probe.0 .1), vf2(j.probe.1 .0, j.probe.1 .1));
    a.push(("graham_scan", ch::graham_scan(&v).map(w2).unwrap_or_else(|e| format!("{e:?}"))));
    a.push(("gift_wrap", ch::gift_wrap(&v).map(w2).unwrap_or_else(|e| format!("{e:?}"))));
    a.push(("indexed_graham_scan", format!("{:?}", ch::indexed_graham_scan(&v, &ind))));
    a.push(("indexed_gift_wrap", format!("{:?}", ch::indexed_gift_wrap(&v, &ind))));
    if let Ok(h) = ch::graham_scan(&v) {
        if h.len() > 3 {
            a.push(("contains", format!("{} {} {}", h.contains_point_inclusive(probe.start), h.contains_point_exclusive(probe.end), ch::contains_convex_hull(&h, &vec![probe.start, probe.end]))));
        }
    }
    a.push(("intersection", v.intersection(&probe).map(ti).unwrap_or_default()));
    a.push(("find_all_intersections", v.find_all_intersections(&probe).into_iter().map(ti).collect::<Vec<_>>().join(" ")));
    let two = v.find_two_intersections(&probe);
    a.push(("find_two_intersections", format!("{:?} {:?}", two.0.map(t2), two.1.map(t2))));
    let dir = probe.end - probe.start;
    if probe.start != probe.end {
        a.push(("closest_ray_intersection", format!("{:?}", v.closest_ray_intersection(dir, probe.start).map(t2))));
    }
    a.push(("simplify_rdp", w2(v.simplify_rdp(s(j.tol)))));
    a.push(("indexed_simplify_rdp", format!("{:?}", indexed_simplify_rdp_2d(&v, &ind, s(j.tol)))));
    a.push(("simplify_vw", w2(v.simplify_vw(j.del))));
    if j.tol > 0.0 {
        a.push(("discretize", w2(v.discretize(s(j.tol)).take(60).collect())));
    }
    a.push(("aabb", format!("{:?}", Aabb2::with_points(&v))));
    if n > 1 {
        if let Ok(t) = SimpleAffine::new(&Aabb2::with_points(&v), &Aabb2::with_points(&[probe.start, probe.end])) {
            a.push(("affine", format!("{:?} {:?}", t.transform_ab(v[0]).map(t2).ok(), t.transform_ba(v[n - 1]).map(t2).ok())));
        }
    }
    if j.sweep {
        a.push(("is_self_intersecting", format!("{:?}", v.is_self_intersecting())));
        for (stop, ignore) in [(false, false), (true, false), (false, true)] {
            let r = IntersectionData::<T>::default()
                .with_stop_at_first_intersection(stop)
                .and_then(|d| d.with_ignore_end_point_intersections(ignore))
                .and_then(|d| d.with_lines(v.window_iter()))
                .and_then(|d| d.compute().map(|i| i.map(|(p, l)| format!("{} {:?}", t2(p), l)).collect::<Vec<_>>().join(" ")));
            a.push(("IntersectionData", r.unwrap_or_else(|e| format!("{e:?}"))));
            let e: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
            let r = IntersectionTester::<T>::new(v.clone())
                .with_stop_at_first_intersection(stop)
                .and_then(|d| d.with_ignore_end_point_intersections(ignore))
                .and_then(|d| d.with_edges(e.iter()))
                .and_then(|d| d.compute().map(|(v, i)| format!("{} {:?}", w2(v), i.collect::<Vec<_>>())));
            a.push(("IntersectionTester", r.unwrap_or_else(|e| format!("{e:?}"))));
        }
    }
    let (shapes, used) = divide_into_shapes(&j.edges);
    a.push(("divide_into_shapes", format!("{shapes:?} {:?}", used.iter().collect::<Vec<bool>>())));
    if n > 4 {
        let (a0, b0, c0) = (j.v[0], j.v[1], j.v[2]);
        let (dx, dy) = (b0.0 - a0.0, b0.1 - a0.1);
        let cross = dx * (c0.1 - a0.1) - dy * (c0.0 - a0.0);
        if cross * cross > 0.25 * (dx * dx + dy * dy) {
            // the parabolic arc between a point and a segment
            let arc = VoronoiParabolicArc::<T>::new(Line2::new(v[0], v[1]), v[2], v[3], v[4]);
            let d3: Vec<_> = arc.discretize_3d(s(j.tol)).into_iter().map(|p| f3(p)).map(|p| (p.0 + 0.0, p.1 + 0.0, p.2 + 0.0)).collect();
            a.push(("arc", format!("{} {:?}", w2(arc.discretize_2d(s(j.tol))), d3)));
        }
    }
    // must not have changed
    a.push(("input", w2(v)));
    a
}
fn ask_par<T: Backend2>(j: &Job, threads: usize) -> Answers {
    pool(threads).install(|| ask_par_here::<T>(j))
}
fn ask_par_here<T: Backend2>(j: &Job) -> Answers {
    let v: Vec<T> = j.v.iter().map(|p| vf2(p.0, p.1)).collect();
    let ind: Vec<usize> = (0..v.len()).collect();
    let mut a: Answers = vec![("convex_hull_par", format!("{:?}", ch::convex_hull_par(&v, &ind, j.chunk)))];
    if j.chunk > 1 {
        a.push(("convex_hull_par of a line string", v.convex_hull_par(j.chunk).map(w2).unwrap_or_else(|e| format!("{e:?}"))));
    }
    if let (Ok(h), Ok(g)) = (ch::graham_scan(&v), ch::graham_scan(&v[..v.len() / 2 + 1])) {
        if h.len() > 3 {
            a.push(("contains_convex_hull_par", format!("{}", ch::contains_convex_hull_par(&h, &g))));
        }
    }
    a
}
fn ask3<T: Backend3>(j: &Job) -> Answers
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let v: Vec<T> = j.v.iter().map(|p| vf3(p.0, p.1, p.2)).collect();
    let s = |x: f64| sc::<T::Scalar>(x);
    let ind: Vec<usize> = (0..v.len()).rev().collect();
    let w = |v: Vec<T>| v.into_iter().map(|p| format!("{:?}", f3(p))).collect::<Vec<_>>().join(" ");
    let mut a: Answers = Vec::new();
    a.push(("simplify_rdp_3d", w(v.simplify_rdp(s(j.tol)))));
    a.push(("indexed_simplify_rdp_3d", format!("{:?}", indexed_simplify_rdp_3d(&v, &ind, s(j.tol)))));
    a.push(("simplify_vw_3d", w(v.simplify_vw(j.del))));
    if j.tol > 0.0 {
        a.push(("discretize_3d", w(v.discretize(s(j.tol)).take(60).collect())));
    }
    let b = Aabb3::with_points(&v);
    a.push(("aabb3", format!("{:?} {:?} {:?}", b.get_low().map(f3), b.get_high().map(f3), b.center().map(f3))));
    a.push(("plane", format!("{:?}", Plane::get_plane(b))));
    if let Some(path) = &j.scratch {
        let lines: Vec<Vec<Line3<T>>> = v.chunks(5).map(|c| c.windows(2).map(|p| Line3::new(p[0], p[1])).collect()).collect();
        let _ = std::fs::remove_file(path);
        let r = save_to_obj_file(path, "name", &lines).map_err(|e| format!("{e:?}"));
        a.push(("save_to_obj_file", format!("{r:?} {:?}", std::fs::read_to_string(path))));
    }
    a.push(("input", w(v)));
    a
}
fn differ(o: &mut Obs, what: &'static str, sig: &str, a: &Answers, b: &Answers, only: Option<&[&str]>) {
    for (x, y) in a.iter().zip(b.iter()) {
        if only.map(|l| l.contains(&x.0)).unwrap_or(true) {
            o.add("answers_compared", 1);
            let ok = x == y;
            if !o.check(ok, &format!("{sig}:{}", x.0), || format!("{what}: {} answered {} and {}", x.0, x.1, y.1)) {
                return;
            }
        }
    }
    let _ = o.check(a.len() == b.len(), &format!("{sig}:answers"), || format!("{what}: {} and {} answers", a.len(), b.len()));
}
/// answers that consist of selected input values, indices or exact values only
const EXACT2: &[&str] = &[
    "graham_scan", "gift_wrap", "indexed_graham_scan", "indexed_gift_wrap", "contains", "simplify_vw", "aabb", "divide_into_shapes", "input",
];
const EXACT3: &[&str] = &["aabb3", "plane", "input"];

pub fn case_c23(rng: &mut Rng, o: &mut Obs) {
    plain_zeros();
    let exact = rng.chance(1, 2);
    let n = match rng.us(12) {
        0 => rng.ur(30, 300),
        _ => rng.ur(3, 26),
    };
    let r = *rng.pick(&[2i64, 5, 12]);
    let z: Vec<i64> = (0..n).map(|_| rng.range(-r, r)).collect();
    let v: Vec<(f64, f64, f64)> = if exact {
        let p = if rng.chance(1, 2) { polyline(rng, n, r) } else { cloud(rng, n, r) };
        p.iter().zip(z.iter()).map(|(p, z)| (p.0 as f64, p.1 as f64, *z as f64)).collect()
    } else {
        (0..n).map(|_| (rng.fr(-9.0, 9.0) as f32 as f64, rng.fr(-9.0, 9.0) as f32 as f64, rng.fr(-9.0, 9.0) as f32 as f64)).collect()
    };
    if v.len() < 3 {
        return;
    }
    let p = |rng: &mut Rng| (rng.range(-r, r) as f64, rng.range(-r, r) as f64);
    let n = v.len();
    let scratch = if rng.chance(1, 8) { Scratch::new() } else { None };
    let edges = edge_list(rng);
    let j = Job {
        probe: (p(rng), p(rng)),
        tol: *rng.pick(&[0.25, 0.5, 1.0, 3.0]),
        del: rng.us(n),
        chunk: rng.ur(2, n + 1),
        sweep: n < 40,
        edges,
        scratch: scratch.as_ref().map(|d| d.0.join("out.obj")),
        v,
    };
    if n >= 30 {
        o.n("long_line_strings");
    }
    if scratch.is_some() {
        o.n("files_compared");
    }
    o.seen("edges", j.edges.len() as u64 / 2);
    o.input(|| format!("points {:?} probe {:?} tolerance {} delete {} chunk {} edges {:?}", j.v, j.probe, j.tol, j.del, j.chunk, j.edges));
    let mut h = Fnv::new();
    j.v.iter().for_each(|p| {
        h.u(p.0.to_bits());
        h.u(p.1.to_bits());
        h.u(p.2.to_bits());
    });
    o.nontrivial(h.0);
    o.n(if exact { "integer_inputs" } else { "float_inputs" });
    macro_rules! two {
        ($t:ty) => {{
            let Some(a) = o.call("computation", || ask2::<$t>(&j)) else { return };
            let Some(b) = o.call("repeated computation", || ask2::<$t>(&j)) else { return };
            differ(o, concat!("repeating the computation, ", stringify!($t)), "repeat", &a, &b, None);
            a
        }};
    }
    macro_rules! three {
        ($t:ty) => {{
            let Some(a) = o.call("computation", || ask3::<$t>(&j)) else { return };
            let Some(b) = o.call("repeated computation", || ask3::<$t>(&j)) else { return };
            differ(o, concat!("repeating the computation, ", stringify!($t)), "repeat", &a, &b, None);
            a
        }};
    }
    let g = two!(GVec2);
    let c = two!(CVec2F);
    let gd = two!(GDVec2);
    let cd = two!(CVec2D);
    // the arithmetic is the same
    differ(o, "glam::Vec2 and cgmath::Vector2<f32>", "backend2", &g, &c, None);
    differ(o, "glam::DVec2 and cgmath::Vector2<f64>", "backend2", &gd, &cd, None);
    if rng.chance(1, 4) {
        let ga = two!(GVec2A);
        differ(o, "glam::Vec2 and Vec2A", "backend2", &g, &ga, None);
    }
    if exact {
        o.n("f32_f64_compared");
        differ(o, "f32 and f64", "width2", &g, &gd, Some(EXACT2));
    }
    let g = three!(GVec3);
    let gd = three!(GDVec3);
    let ga = three!(GVec3A);
    let c = three!(CVec3F);
    let cd = three!(CVec3D);
    if exact {
        differ(o, "glam::Vec3 and glam::Vec3A", "backend3", &g, &ga, Some(EXACT3));
        differ(o, "glam::Vec3 and cgmath::Vector3<f32>", "backend3", &g, &c, Some(EXACT3));
        differ(o, "glam::DVec3 and cgmath::Vector3<f64>", "backend3", &gd, &cd, Some(EXACT3));
        differ(o, "f32 and f64", "width3", &g, &gd, Some(EXACT3));
    }
    if rng.chance(1, 8) {
        parallel(rng, o, j, r);
    }
}
/// the same computation in thread pools of different sizes, again and again
fn parallel(rng: &mut Rng, o: &mut Obs, mut j: Job, r: i64) {
    if rng.chance(2, 3) {
        // many chunks, and many vertices at the same position
        let n = rng.ur(20, 500);
        let r = *rng.pick(&[1, 2, r, 60]);
        let shift = if rng.chance(1, 3) { rng.fr(0.0, 1.0) as f32 as f64 } else { 0.0 };
        j.v = cloud(rng, n, r).iter().map(|p| (p.0 as f64 + shift, p.1 as f64 + shift, 0.0)).collect();
        j.chunk = match rng.us(4) {
            0 => rng.ur(1, 4),
            1 => rng.ur(1, n),
            _ => rng.ur(2, 2 + n / 8),
        };
        o.input(|| format!("points {:?} chunk {}", j.v, j.chunk));
        let distinct: std::collections::HashSet<(u64, u64)> = j.v.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
        if distinct.len() < j.v.len() {
            o.n("parallel_with_coincident_points");
        }
        o.seen("chunks", (j.v.len() / j.chunk.max(1)) as u64);
    }
    o.n("parallel_repetitions");
    let mut first: Option<Answers> = None;
    for k in 0..8 {
        let Some(b) = o.call_par("parallel computation", || ask_par::<GVec2>(&j, k)) else { return };
        match &first {
            Some(a) => differ(o, "repeating the parallel computation in another thread pool", "repeat", a, &b, None),
            None => first = Some(b),
        }
    }
}
/// a list of edges: few or many vertices, chains, rings, branches
fn edge_list(rng: &mut Rng) -> Vec<usize> {
    let m = match rng.us(5) {
        0 => rng.ur(2, 6),
        1 | 2 => rng.ur(6, 20),
        3 => rng.ur(20, 60),
        _ => rng.ur(60, 300),
    };
    let mut e: Vec<usize> = Vec::new();
    for _ in 0..rng.ur(1, m + 2) {
        let a = rng.us(m);
        let b = if rng.chance(1, 2) { (a + 1) % m } else { rng.us(m) };
        if a != b {
            e.extend([a, b]);
        }
    }
    e
}
static FILE_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Option<Self> {
        let no = FILE_NO.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("lsmon-det-{}-{no}", std::process::id()));
        std::fs::create_dir(&d).ok()?;
        Some(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("out.obj"));
        let _ = std::fs::remove_dir(&self.0);
    }
}

pub const PROPS: &[Prop] = &[
    #[cfg(any(feature = "all", feature = "C23"))]
    Prop {
    id: "C23",
    case: case_c23,
    directed: &[],
    quick: 9_000,
    thorough: 1_000_000,
    threads: 8,
    rule: "line strings of 3-300 points (integer grid with many ties, or random floats); every computation is repeated and compared between vector types",
    required: &["integer_inputs", "float_inputs", "f32_f64_compared", "parallel_repetitions", "parallel_with_coincident_points", "long_line_strings", "files_compared", "answers_compared"],
    assumptions: &["for random floats only repetition and the same scalar width are compared, 3-D vector types only for exact results"],
}];

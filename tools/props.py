IN = ["inputs"]
NOTE = "Sound refutation (every alarm is a concrete replayable input on the real code); a pass means the property held on every generated case. Trusts the exact integer reference in harness/src/exact.rs. "
P("C01", "Every sequential convex hull function returns the exact convex hull",
  "For any finite list of 2-D points that are not all on one line, every sequential convex hull function (Graham scan, its deprecated atan2-free variant, gift wrapping, the indexed variants over any selection of vertices (repeated indices allowed; the variant that leaves the loop open returns the same cycle without the final repetition, also when told to start at the leftmost point), and the line string method) returns a closed, counter-clockwise cycle consisting of exactly the extreme points of the input, each once plus the repeated first vertex, and all of them agree. When all points lie on one line or there are fewer than three, the result still consists of input points and contains the extreme ones. No finite input makes them panic, loop or return an error.",
  IN, "all finite point lists and index selections, including duplicates, collinear runs, closed loops, any order, every vector backend",
  "The tests check a dozen point sets (mostly random clouds and one lattice) by comparing the algorithms with each other; duplicated and collinear points, three-point inputs, and index selections are not reached.",
  ["src/linestring_2d/convex_hull.rs", "src/linestring_2d.rs"],
  [("lowest-x start point search", "convex_hull.rs find_lowest_x"), ("polar sort and left-turn stack", "graham_scan, indexed_graham_scan, graham_scan_wo_atan2"), ("wrapping step", "gift_wrap, indexed_gift_wrap")],
  "runtime monitoring: online oracle (exact integer hull) over generated workloads", NOTE + "Exactness is judged on coordinates for which the library's own arithmetic is exact; for other coordinates hulls are judged within a rounding tolerance.")
P("C02", "The parallel convex hull equals the sequential hull for every schedule",
  "For every point list, index selection, chunk size of at least one and thread-pool size, the parallel convex hull terminates and returns the same closed counter-clockwise cycle of extreme points as the exact convex hull, on every run. The result does not depend on how the work is chunked or scheduled.",
  ["inputs", "schedules", "configurations"], "all point lists x chunk sizes x pool sizes x schedules",
  "Tests run it on a few inputs with one chunk size and the global pool; chunk boundaries, tiny chunks and merging of touching or nested partial hulls are not sampled.",
  [H], [("chunked partial hulls", "convex_hull_par"), ("combining of partial hulls", "combine_convex_hull / merging code of convex_hull_par")],
  "runtime monitoring: exact-hull oracle under varied chunk sizes, pool sizes and repeated schedules", NOTE + "Schedules are sampled by repetition on pools of 1 to 8 threads, not enumerated.")
P("C03", "Point-in-hull tests agree with exact geometry",
  "For every strictly convex counter-clockwise hull with non-zero area, given open or closed and starting at any vertex, and every point, the inclusive containment test is true exactly when the point is inside or on the boundary, and the exclusive test exactly when it is strictly inside. On a closed hull without area (two different vertices or a single one, as convex_hull returns for collinear points) the inclusive test is true exactly on the segment between them and the exclusive test nowhere. (Where coordinates are rounded, points clearly further from the boundary than the rounding error are judged.)",
  IN, "all hulls and query points, including vertices, points on edges, on diagonals and on extensions of edges",
  "Tests query a handful of points against two hulls; boundary, diagonal and edge-extension points are not reached.",
  [H, "src/linestring_2d.rs"], [("wedge/side tests", "contains_point_inclusive, contains_point_exclusive")],
  "runtime monitoring: exact point-location oracle over generated hulls and adversarial query points", NOTE)
P("C04", "Hull-in-hull containment is exact, sequential and parallel",
  "For every strictly convex hull A of non-zero area, or closed hull A without area, and every hull B, the containment test is true exactly when every vertex of B lies inside or on the boundary of A, and the parallel variant always returns the same answer as the sequential one.",
  ["inputs", "schedules"], "all pairs of hulls, all schedules of the parallel variant",
  "Tests use two well separated nested clouds; touching, equal, partially overlapping and single-point hulls are not reached.",
  [H], [("per-vertex containment", "contains_convex_hull, contains_convex_hull_par")],
  "runtime monitoring: exact containment oracle over generated hull pairs", NOTE)
L2 = "src/linestring_2d.rs"
L2I = "src/linestring_2d/impls.rs"
L3 = "src/linestring_3d.rs"
INTER = "src/linestring_2d/intersection.rs"
P("C05", "Segment intersection is exact in kind and accurate in position",
  "For any two finite segments, in either argument order and either direction, including zero-length, parallel, collinear and touching ones, Line2::intersection_point returns nothing exactly when the segments have no common point, a single point exactly when they share one point (accurate to a few rounding errors), and an overlap with the two end points of the common part exactly when they overlap in more than one point. single() of the answer is a point of both segments and closest(q) is the reported point nearest to q. intersect_line_point reports a point exactly when it lies on the segment. Two segments that coincide but for the last bit of their coordinates may be answered as parallel, but an overlap reported for them never extends beyond either of them. (Points that miss a segment by less than the rounding tolerance of the point-on-segment test may be answered either way. Coordinates are of ordinary magnitude: the tests for parallel lines use an absolute epsilon, so figures much smaller than the square root of the scalar's epsilon count as parallel.)",
  IN, "all pairs of segments whose coordinates the scalar type represents without rounding in products, and rounded coordinates with a clear margin",
  "Tests check about a dozen hand-written pairs in one argument order; the relations near parallel, touching, collinear-contained and degenerate in all orders and directions are not enumerated.",
  [L2, L2I], [("parameter test of the crossing point", "Line2::intersection_point"), ("collinear overlap clipping", "Line2::intersection_point, intersect_line_point"), ("Intersection::single/closest", "linestring_2d/impls.rs")],
  "runtime monitoring: exact rational segment-intersection oracle, every pair in 8 argument orders", NOTE)
P("C06", "A line string reports every edge that a line segment meets",
  "For any line string and any line segment, intersection() returns the intersection with the first edge that meets the segment, find_all_intersections() returns exactly one correct entry for every edge that meets it, in edge order, and find_two_intersections() returns points that lie on both: none if nothing meets, and two different points whenever two clearly different points can be reported. On the closed boundary of a convex polygon those two points are the two ends of the common part, and touching a single point gives one point. (Where coordinates are rounded, edges that clearly meet or clearly miss the segment are judged.)",
  IN, "all line strings (open, closed, convex or not, any length) x all probe segments",
  "Tests probe a few segments against two shapes; probes through vertices, along edges and touching a corner are not sampled.",
  [L2, L2I], [("per-edge scan", "find_all_intersections, intersection"), ("pairing of hits", "find_two_intersections")],
  "runtime monitoring: exact per-edge intersection oracle over generated line strings and adversarial probes", NOTE)
P("C07", "Ray queries find the exact nearest hit in front of the origin",
  "For any ray origin and non-zero direction and any edge, ray_edge_intersection returns the smallest parameter t >= 0 at which the ray meets the edge, and nothing exactly when the ray misses it; edges on the line of the ray count, an edge around the origin is hit at 0, edges behind the origin are missed. closest_ray_intersection returns the nearest point strictly in front of the origin where the ray meets the line string, or nothing when there is none; when the origin itself lies on the line string the origin may be returned instead. (Where coordinates are rounded, edges that the ray clearly hits or clearly misses are judged.)",
  IN, "all rays x all line strings, including origins on the line string and rays along edges or through vertices",
  "Tests cast a few rays at a few shapes; collinear edges, hits at vertices and edges behind the origin are not covered.",
  [L2, L2I], [("ray parameter computation", "ray_edge_intersection"), ("closest hit selection", "closest_ray_intersection")],
  "runtime monitoring: exact rational ray-cast oracle", NOTE)
P("C08", "Self-intersection detection is correct",
  "For any finite line string, is_self_intersecting returns true exactly when two of its edges share a point that is not an end point of both of them (edges that overlap, or retrace each other, count; edges that only meet end to end, as in a closed loop, do not; a point repeated several times in a row makes no difference), and it never fails. This holds for line strings of every length; from 10 points on, where the sweep line is used, a true answer is only promised when the events of the sweep are numerically separated (see the sweep-line property), a false answer always.",
  IN, "all finite line strings, both below and above the length at which the algorithm switches",
  "Tests check a few shapes and almost all of them are simple crossings; folds, T junctions, shared vertices and the two algorithm paths are not compared.",
  [L2, L2I, INTER], [("pairwise test for short lines", "is_self_intersecting"), ("sweep line for long lines", "is_self_intersecting, IntersectionData"), ("treatment of shared end points", "Line2::intersection_point3")],
  "runtime monitoring: exact pairwise oracle over generated simple and disturbed polylines", NOTE)
SEP = "The events are numerically separated when every crossing that has to be computed (no line ends there, and the lines meeting there are not all axis-parallel) involves exactly two lines and shares its y coordinate with another event only on a horizontal line containing all events of that y, and different events are further apart than the rounding error of the scalar type."
P("C09", "The sweep line reports every intersection, and nothing else",
  "For any set of finite line segments, lines of zero length included, every intersection reported by IntersectionData is a real one: the point lies (within rounding) on every listed line, two or more lines are listed, sorted and without repeats, and they really have that point in common. When the events are numerically separated a plain crossing of two lines is reported at most once, and the report is complete: every point that two or more lines have in common (crossings, T junctions, shared end points, both ends of overlaps) is reported with all lines through it, in sweep order (entries may be split when they are a rounding error apart), ignoring end points omits exactly those points where every line through the point ends, and stopping at the first intersection reports the first one. It makes no difference whether the lines are added by one call of with_lines or by several: line indices count all lines added so far, and get_lines lists them in that order, each directed upwards (in y, then x). The iterator's len() is the number of entries. " + SEP + " No finite input makes it fail or panic.",
  IN, "all finite sets of segments x both options, every vector backend",
  "Tests run 14 line sets; almost all are general position. Overlaps, T junctions, horizontal runs and many lines through a point in combination are not enumerated.",
  [INTER, L2], [("site event and result queues", "intersection.rs IntersectionData"), ("neighbour search around an event", "find_neighbours / handle_event"), ("rounding-tolerant event ordering", "SiteEventKey, SweeplinePos")],
  "runtime monitoring: exact rational arrangement oracle over generated line sets", NOTE + "Completeness is not judged on sets whose events are not numerically separated.")
P("C10", "The indexed sweep line reports every intersection of a vertex/edge graph",
  "For any list of finite vertices and edges between them (shared, duplicated and unused vertices allowed, and edges of zero length too), the vertices returned by IntersectionTester start with the input vertices unchanged, every reported vertex index is valid and reported once, and every reported entry is a real intersection: two or more edges, sorted and without repeats, which all pass through that vertex. When the events are numerically separated the report is complete: every point that two or more edges have in common is reported with all edges through it, possibly split into several entries a rounding error apart, in sweep order; ignoring end points omits exactly those points where every edge through the point ends, and stopping at the first intersection reports one. It makes no difference whether the edges are added by one call of with_edges or by several: edge indices count all edges added so far, and get_lines lists them unchanged in that order. The iterator's len() is the number of entries. " + SEP + " No finite input makes it fail or panic.",
  IN, "all finite vertex/edge graphs x both options, every vector backend",
  "Tests run a handful of graphs and mostly check the number of results.",
  ["src/linestring_2d/indexed_intersection.rs", L2], [("vertex/edge sweep", "IntersectionTester::compute"), ("appending new vertices", "indexed_intersection.rs"), ("neighbour search around an event", "find_neighbours")],
  "runtime monitoring: exact rational arrangement oracle over generated graphs with shuffled, shared and duplicated vertices", NOTE + "Completeness is not judged on sets whose events are not numerically separated.")
RDP = "keeps the first and the last point, is a subsequence of the input in order, drops the points between two consecutive kept points only if all of them are within the tolerance (a distance equal to the tolerance counts as within) of the segment between those two kept points, and keeps a point only where needed, i.e. it is the furthest of its section and further away than the tolerance. Inputs of at most two points are returned unchanged."
P("C11", "2D Ramer-Douglas-Peucker keeps every point within the tolerance",
  "For any finite 2D line string and tolerance >= 0, the result of simplify_rdp " + RDP + " indexed_simplify_rdp_2d does the same for any sequence of indices into a vertex list, whatever the number of vertices, their order or repetitions.",
  IN, "all 2D line strings x tolerances x index sequences",
  "Tests pin the number of points for a few curves and tolerances; the tolerance guarantee itself is never checked.",
  [L2, "src/linestring_2d/simplify.rs", L2I], [("furthest point recursion", "simplify_rdp_recursive, indexed_simplify_rdp_2d"), ("distance to the segment", "distance_to_line_squared_safe")],
  "runtime monitoring: offline checker of the simplification specification (exact distances, ties resolved by search)", NOTE)
P("C12", "3D Ramer-Douglas-Peucker keeps every point within the tolerance",
  "For any finite 3D line string and tolerance >= 0, the result of simplify_rdp " + RDP + " indexed_simplify_rdp_3d does the same for any sequence of indices into a vertex list, whatever the number of vertices, their order or repetitions.",
  IN, "all 3D line strings x tolerances x index sequences",
  "Tests pin the number of points for a few curves and tolerances; the tolerance guarantee itself is never checked.",
  [L3, "src/linestring_3d/simplify.rs", "src/linestring_3d/impls.rs"], [("furthest point recursion", "simplify_rdp_recursive, indexed_simplify_rdp_3d"), ("distance computation", "distance_to_line_squared_safe")],
  "runtime monitoring: offline checker of the simplification specification (exact distances, ties resolved by search)", NOTE + "One known finding (distance to the infinite line) is listed in known_findings.txt.")
P("C13", "2D Visvalingam-Whyatt removes the least significant points",
  "For any finite 2D line string and any number d of points to delete, simplify_vw keeps the first and the last point, and deletes d times an interior point whose triangle with its current neighbours has the smallest area. It stops at the smallest size it maintains: 4 points for open line strings (2 for an open one of 3 points), 3 points counting the closing point for closed ones, which stay closed. Inputs of at most 2 points are unchanged.",
  IN, "all 2D line strings x all numbers of points to delete",
  "Tests pin the number of points for a few inputs; which points are removed is never checked.",
  [L2, L2I, "src/linestring_2d/simplify.rs"], [("area priority queue with stale entries", "simplify_vw, PriorityDistance"), ("linked neighbour list", "simplify_vw")],
  "runtime monitoring: exact replay of the area-ordered deletion, branching on ties", NOTE)
P("C14", "3D Visvalingam-Whyatt removes the least significant points",
  "For any finite 3D line string and any number d of points to delete, simplify_vw keeps the first and the last point, and deletes d times an interior point whose triangle with its current neighbours has the smallest area, never leaving fewer than 2 points. Inputs of at most 2 points are unchanged.",
  IN, "all 3D line strings x all numbers of points to delete",
  "Tests pin the number of points for a few inputs; which points are removed is never checked.",
  [L3, "src/linestring_3d/impls.rs", "src/linestring_3d/simplify.rs"], [("area priority queue with stale entries", "simplify_vw, PriorityDistance"), ("linked neighbour list", "simplify_vw")],
  "runtime monitoring: exact replay of the area-ordered deletion, branching on ties", NOTE + "One known finding (the last vertex is missing) is listed in known_findings.txt.")

SIMP = "src/linestring_2d/simplify.rs"
P("C15", "discretize() splits every edge evenly and keeps every vertex",
  "For any 2D or 3D line string and any distance d > 0 (infinite included), as long as squared lengths neither underflow nor overflow, discretize(d) yields the original vertices exactly and in order, splits every edge into the smallest number of equal steps that are not longer than d (at least one step; rounding of that number is tolerated), with the intermediate points evenly spaced on the edge, yields the last vertex once, and then ends. An empty line string yields nothing, a single point yields at most that point, and the iterator always terminates.",
  IN, "all line strings (repeated points, very short next to very long edges, closed ones) x distances from tiny to infinite",
  "Tests count the points of a few line strings; positions, short edges and distances larger than the edges are not sampled.",
  [L2, L2I, L3, "src/linestring_3d/impls.rs"], [("step state machine", "DiscreteIterator::next (2D and 3D)"), ("first edge set-up", "discretize()")],
  "runtime monitoring: online checker of the emitted point stream against the edge-by-edge specification", NOTE)
P("C16", "A parabolic arc is discretized on the parabola within the tolerance",
  "For a VoronoiParabolicArc, discretize_2d(max_dist) and discretize_3d(max_dist) start exactly at the start point and end exactly at the end point; every intermediate point lies on the parabola (same distance to the cell point as to the line of the segment, on the same side of it) and the points are ordered along the segment; a section between two consecutive points is split exactly when its point furthest from the chord is further away than max_dist. The 3D points have the same x and y as the 2D points, and z is minus the distance to the cell point. discretize_3d_straight_line yields just the start point (z = minus its distance to the segment) and the end point (z = minus its distance to the cell point). Degenerate arcs (no extent, or a cell point on the line of the segment) terminate with just the two end points.",
  IN, "all segments, cell points and pairs of points on the parabola x tolerances",
  "Tests compare a few arcs with stored numbers.",
  ["src/linestring_2d.rs", "src/linestring_3d.rs", L2I], [("iterative arc subdivision", "VoronoiParabolicArc::discretize_2d / discretize_3d"), ("rotation into the frame of the segment", "discretize_2d / discretize_3d")],
  "runtime monitoring: exact-geometry checker of the emitted points (focus-directrix property, order, chord error)", NOTE)

P("C17", "Bounding boxes are exactly the limits of what was added",
  "After any history of constructing, growing by points or boxes and applying maps, low and high of Aabb2/Aabb3 are exactly the component-wise minimum and maximum of everything added; extents are (low, high, high - low) and the center is the middle (for limits whose sum the scalar type represents). Applying a map yields the box spanned by the images of the two limits. Boxes are equal exactly when their limits agree (within a few rounding errors). The inclusive containment tests of points, lines and boxes are true exactly when every limit is respected, boundary included (points within a few rounding errors of the boundary may be answered either way). An empty box has no limits, contains nothing and is contained in nothing. Aabb2::convex_hull and the conversion of a box to a line string are the closed counter-clockwise outline starting at the lower limit.",
  IN, "all histories of box operations on finite points, all queries",
  "Tests build a few boxes; empty boxes, order-reversing maps and boundary queries in every dimension are not combined.",
  [L2, L2I, L3, "src/linestring_3d/impls.rs"], [("limit updates", "Aabb2/Aabb3 update_with_point(s), update_with_aabb, apply"), ("containment tests", "contains_*_inclusive"), ("extents and center", "extents, center")],
  "runtime monitoring: state comparison with an exact model after every operation of random histories", NOTE)
P("C18", "SimpleAffine maps the source box centred and uniformly into the destination",
  "For any two non-empty finite boxes, SimpleAffine::new maps the center of the source to the center of the destination with one uniform scale for both axes, the smaller destination side divided by the larger source side (each side counted as at least 1), so that the source box fits into a destination whose sides are at least 1. transform_ba is the inverse of transform_ab, and the array versions agree with the point versions. The same holds for transformations whose public fields were set by hand, with another (also negative) scale for each axis: transform_ab is (p + a_offset) * scale + b_offset per axis. An empty box is refused with AabbError, results that are not finite with TransformError, and the default transformation is the identity.",
  IN, "all pairs of boxes x all points, including degenerate boxes and non-finite or overflowing points",
  "Tests transform the corners of a few boxes.",
  [L2, L2I], [("scale and offset computation", "SimpleAffine::new"), ("finite checks", "transform_ab, transform_ba, transform_ab_a, transform_ba_a")],
  "runtime monitoring: model comparison with rounding tolerance, round trips and fault inputs", NOTE)
P("C19", "Plane conversions between 2D and 3D keep coordinates exactly",
  "Copying to 2D and back to 3D along the XY, XZ or YZ plane keeps the two coordinates of the plane exactly, in the order of the line string or line, with 0 for the third: points and lines map (x,y), (x,z), (y,z); line strings map (x,y), (x,z) and, for YZ, (z,y), and back again. Plane::get_plane and get_plane_relaxed return the plane orthogonal to the only axis in which the box is flat, i.e. in which its extent is at most epsilon relative to its largest extent, and None when there is no such axis, more than one, or the box is empty or a point.",
  IN, "all points, lines, line strings and boxes x planes",
  "Tests check one line per plane and a few boxes.",
  [L2, L2I, L3, "src/linestring_3d/impls.rs"], [("axis selection", "copy_to_2d, copy_to_3d, Plane::point_to_2d, Plane::point_to_3d"), ("flatness decision", "Plane::get_plane_relaxed")],
  "runtime monitoring: exact model comparison over generated points and boxes", NOTE)
P("C20", "divide_into_shapes partitions the edges into maximal shapes",
  "For any list of index pairs describing edges between two different vertices (any order, direction, repetition; an odd trailing index is ignored), divide_into_shapes returns shapes in which every distinct undirected edge occurs exactly once as a pair of consecutive vertices, and nothing else does. Shapes are as long as possible: every inner vertex of a shape has exactly two neighbours, and its end vertices do not, except for closed rings (first == last) made only of vertices with two neighbours. The returned bit vector has one flag per vertex up to the largest index, set exactly for the vertices with two neighbours. It never panics.",
  IN, "all undirected graphs without self-loops, in every ordering of their edges",
  "Tests check a few graphs; rings touching junctions, duplicated edges, several components and vertex numbering are not enumerated.",
  ["src/shape.rs"], [("edge walking from junctions and ends", "divide_into_shapes"), ("ring detection", "divide_into_shapes"), ("neighbour bit vector", "divide_into_shapes")],
  "runtime monitoring: offline conservation checker (exactly-once edges, maximality) over generated graphs", NOTE)
P("C21", "A saved obj file reads back as exactly the same lines",
  "save_to_obj_file writes a file whose first record is 'o <name>', in which every distinct vertex (distinguished by the bits of its coordinates) occurs once as a 'v' record that reads back as exactly the same values, and whose 1-based 'l a b' records reproduce all lines in order. An existing file is replaced completely. A path that can not be written, or a device without space, gives an IoError and not a partial success.",
  ["inputs", "fault_sequences"], "all groups of lines with finite coordinates x file states",
  "No test reads a written file back.",
  [L3, "src/linestring_3d/impls.rs"], [("vertex deduplication", "save_to_obj_file"), ("record writing", "save_to_obj_file")],
  "runtime monitoring: the written file is parsed back and compared; fault injection with unwritable paths and a full device", NOTE)
P("C22", "Line string views, iterators and approximate equality are faithful",
  "window_iter yields exactly the consecutive pairs of a line string and chunk_iter exactly the disjoint pairs, in order, with len(), is_empty(), size_hint() and remainder() matching what is left at every step. is_connected is true exactly when the first point equals the last (or there is none), point_count does not count the repeated last point of a closed 2D line string of more than 2 points, apply maps every point exactly once in place. Approximate equality of line strings (abs_diff_eq, ulps_eq of the Approx traits) holds exactly when the lengths are the same and all components agree within the tolerance, and that of Line2 is additionally independent of the direction of either line, while == is not. Lines built from arrays have exactly these coordinates.",
  ["inputs", "histories"], "all line strings and lines, at every step of every iterator",
  "Tests walk over one or two line strings; lengths 0 to 3, len() mid-way and the remainder are not checked.",
  [L2, L2I, L3, "src/linestring_3d/impls.rs"], [("iterator state", "WindowIterator, ChunkIterator"), ("approximate equality", "Approx impls, AbsDiffEq/UlpsEq for Line2"), ("in-place map", "apply")],
  "runtime monitoring: step-by-step trace checker of the iterators and model comparison", NOTE)
P("C23", "Results are deterministic and independent of the vector backend",
  "Repeating any computation of the library with the same input gives bit-identical results, in the same order, whatever thread or schedule it runs on, and leaves its input unchanged. 2D results are identical for all vector types of the same scalar width (glam Vec2, Vec2A and cgmath Vector2<f32>; glam DVec2 and cgmath Vector2<f64>), and where all arithmetic is exact (small integers; results made of input points, indices or truth values) f32 and f64, and all 3D vector types, agree too.",
  ["inputs", "schedules", "configurations"], "all inputs x repetitions x vector types",
  "Tests use one backend per case and run once; a random hash state or a backend dependent branch stays unnoticed.",
  [INTER, "src/linestring_2d/indexed_intersection.rs", H, L2, L3], [("active line sets of the sweep", "intersection.rs, indexed_intersection.rs"), ("backend neutral arithmetic", "GenericVector2/3 users")],
  "runtime monitoring: differential trace comparison between repetitions, pools and vector backends", NOTE)
P("C24", "No computation has undefined behaviour, data races or arithmetic overflow",
  "Whatever public function is called with whatever finite input and valid indices, from one or from several threads at once, sequential or parallel variant, the library never accesses memory out of bounds, uninitialised or after it was freed, never races on shared memory, never breaks the preconditions of unsafe operations, never overflows integer arithmetic or the stack, and does not die by a signal.",
  ["inputs", "schedules"], "all inputs x schedules",
  "Tests run uninstrumented on a few inputs; an out-of-bounds access or a race that happens to be harmless stays unnoticed.",
  [H, L2, INTER, "src/linestring_2d/indexed_intersection.rs", "src/linestring_2d/simplify.rs", L3, "src/shape.rs"], [("parallel fan-out", "convex_hull_par, contains_convex_hull_par"), ("index arithmetic", "convex_hull.rs, simplify.rs, shape.rs, intersection.rs")],
  "sanitizers: AddressSanitizer, ThreadSanitizer (instrumented std) and Miri over the workloads of all other monitors", "Sound refutation within what the instrumentation sees; a pass covers the executed inputs and schedules only. Leaks are not judged.")
P("C25", "Non-finite input is refused with an error",
  "When at least one of four or more otherwise different points has a NaN or infinite component, every convex hull function (graham_scan, graham_scan_wo_atan2, gift_wrap, their indexed variants for selections including it, convex_hull and convex_hull_par), IntersectionData::with_lines, IntersectionTester::with_edges for edges using it, and is_self_intersecting for line strings of ten or more points return an InvalidData error: no hull or intersection list, no panic and no endless loop. Vertices that are not selected or not used by an edge do not matter.",
  ["inputs", "fault_sequences"], "all positions, components and kinds of non-finite values",
  "Tests try one infinite coordinate in a few places.",
  [H, INTER, "src/linestring_2d/indexed_intersection.rs", L2], [("finite checks", "find_lowest_x / graham_scan / gift_wrap"), ("input validation", "with_lines, with_edges")],
  "runtime monitoring: fault injection of non-finite values with an error/termination monitor", NOTE)
P("C26", "Point to line distances are accurate",
  "The 2D distance_to_line_squared functions return the squared distance from the point to the line segment (also beyond its ends), the 3D ones the squared distance to the infinite line through the two points, within a few rounding errors and independent of the direction of the line. The _safe versions return the squared distance to the point itself for lines without length. scale_to_coordinate(p, v, s) is p + v * s.",
  IN, "all finite points and lines whose products the scalar type represents",
  "Tests check a couple of points beside a line.",
  [L2, L3], [("projection and clamping", "linestring_2d::distance_to_line_squared"), ("cross product distance", "linestring_3d::distance_to_line_squared"), ("degenerate lines", "distance_to_line_squared_safe")],
  "runtime monitoring: exact rational distance oracle", NOTE)
P("C27", "Orientation predicates agree with the sign of the exact cross product",
  "For any three points whose coordinate products the scalar type represents exactly, cross_2d(a,b,c) is exactly the cross product of b-a and c-a, point_orientation is Left, Right or Collinear according to its sign, is_point_left is true exactly when it is positive, is_point_left_allow_collinear exactly when it is not negative, and is_left()/is_left_or_collinear() of the orientation agree with them, for every order of the arguments.",
  IN, "all triples with exact products, including collinear and equal points",
  "Tests compare a few hand-written triples.",
  [H], [("orientation", "cross_2d, point_orientation, is_point_left, is_point_left_allow_collinear, Orientation")],
  "runtime monitoring: exact integer oracle over all argument orders", NOTE)
P("C28", "Debug text of lines and boxes carries the exact coordinates",
  "The Debug text of Line2, Line3 and (non-degenerate) Aabb2 lists all coordinates in order (start then end, low then high), each with a decimal point, and reading the numbers back gives exactly the same values, for all finite coordinates. An Intersection is written like the point or the line it holds, an empty Aabb2 without any number.",
  IN, "all finite coordinates",
  "No test looks at the text.",
  [L2I, "src/linestring_3d/impls.rs", L2, L3], [("number formatting", "Debug impls of Line2, Line3, Aabb2")],
  "runtime monitoring: the text is parsed back and compared", NOTE)
P("C29", "Large and worst-case inputs need small stacks and proportional memory",
  "Inputs of tens of thousands of elements, also the ones that make the algorithm work hardest (every point a hull vertex, a damped zigzag for the RDP simplification, a line crossed by all others, chains in any order), are processed on a thread with a stack of 256 KiB without overflowing it, with memory in use proportional to the size of input and output, in the same finite time budget as small ones, and with the same exactness: hulls, containment, self-intersection, the sweeps on grids and disjoint crosses, RDP and VW simplification in 2D and 3D, discretization of line strings and parabolic arcs, division into shapes and the .obj export give the answer known by construction or from an independent reference.",
  IN, "all inputs of 500 to 60000 elements, including worst cases of each algorithm",
  "Tests use at most a few hundred points; recursion that is as deep as the input, quadratic memory or wrong index arithmetic shows only on large ones.",
  [H, L2, INTER, "src/linestring_2d/indexed_intersection.rs", "src/linestring_2d/simplify.rs", "src/linestring_3d/simplify.rs", L3, "src/shape.rs"],
  [("divide and conquer of RDP", "simplify_rdp, indexed_simplify_rdp_2d, indexed_simplify_rdp_3d"), ("event queue", "IntersectionData::compute, IntersectionTester::compute"), ("partial hulls", "convex_hull_par"), ("chain merging", "divide_into_shapes")],
  "runtime monitoring: constructed worst cases on bounded stacks, with memory accounting and known answers", "Sound refutation; sizes up to 60000 elements.")

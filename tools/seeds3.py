import sys; sys.path.insert(0,'/verif/tools')
from plant import mk
PRE = open('/verif/tools/seeds2.py').read().split("PRE='''")[1].split("'''")[0]
want=sys.argv[1:]
def seed(id,*a):
    if not want or any(id.startswith(w) for w in want): mk(id,*a)
XTRA = """
use cgar::geometry::{segment::Segment, intersection::*};
use cgar::kernel::{*, predicates::incircle};
fn r2(x: f64, y: f64) -> Point<CgarRational, 2> { Point::from_vals([CgarRational::from(x), CgarRational::from(y)]) }
"""
seed('s17-relative-order','C03',
 'two large f64 numbers closer to each other than a billionth of their size',
 'the order calls two numbers equal although their difference is positive',
 [('src/numeric/cgar_f64.rs','        if diff.abs() < EPS {\n            return Some(std::cmp::Ordering::Equal);\n        }\n        if diff > EPS {','        if diff.abs() < EPS * self.0.abs().max(1.0) {\n            return Some(std::cmp::Ordering::Equal);\n        }\n        if diff > EPS {')],
 PRE+"""fn main() {
    let (a, b) = (CgarF64(2e6 + 1e-5), CgarF64(2e6));
    check((&a - &b).is_positive(), "the difference is positive");
    check(a > b && b < a, "a number must be greater than another when the difference is positive");
}
""")
seed('s18-incircle-scale','C04',
 'four points that span hundreds of units and are close to a common circle',
 'the in-circle predicate calls points cocircular although the determinant is far outside the tolerance',
 [('src/kernel/predicates.rs','    let eps = &scale * &scale * T::from(EPS);','    let eps = &(&scale * &scale) * &(&scale * &scale) * T::from(EPS);')],
 PRE+XTRA+"""fn main() {
    // corners of a square with sides of 2000, the last one moved a little
    let q = |x: f64| incircle(&r2(0.0, 0.0), &r2(2000.0, 0.0), &r2(2000.0, 2000.0), &r2(x, 2000.0 - x));
    check(q(1.0 / 1048576.0).is_positive(), "a point inside the circle");
    check(q(-1.0 / 1048576.0).is_negative(), "a point outside the circle");
}
""")
seed('s19-collinear-axis','C05',
 'a segment orthogonal to an axis, and a point that leaves its line along an earlier axis',
 'points beside an axis-parallel segment count as collinear with it and as lying on it',
 [('src/kernel/predicates.rs','''        } else if vi.abs().is_positive() {
            return false; // ui ≈ 0 but vi isn’t ⇒ not collinear
        }''','''        }''')],
 PRE+XTRA+"""fn main() {
    check(!are_collinear(&r3(0.0, 1.0, 1.0), &r3(0.0, 3.0, 5.0), &r3(7.0, 2.0, 3.0)), "a point beside the line is not collinear");
    check(are_collinear(&r3(0.0, 1.0, 1.0), &r3(0.0, 3.0, 5.0), &r3(0.0, 2.0, 3.0)), "a point on the line is collinear");
}
""")
seed('s20-short-segments','C06',
 'two short crossing segments in space, with lengths of about a hundredth',
 'crossing segments are taken for parallel ones, and the common point is not reported',
 [('src/geometry/intersection.rs','    let (s, t) = if denom.abs().is_positive() {','    let (s, t) = if denom.abs() > T::point_merge_threshold() {')],
 PRE+XTRA+"""fn main() {
    let h = 1.0 / 128.0;
    let s = Segment::new(&r3(-h, 0.0, 0.0), &r3(h, 0.0, 0.0));
    let t = Segment::new(&r3(0.0, -h, 0.0), &r3(0.0, h, 0.0));
    check(matches!(segment_segment_intersection_3(&s, &t), SegmentIntersection3::Point(_)), "the segments cross");
}
""")
seed('s21-hull-line','C13',
 'points on the line of a vertical hull edge, inserted beyond its ends',
 'the triangulation gets triangles without area or misses a point',
 [('src/operations/triangulation/delaunay.rs','    p[0] >= minx && p[0] <= maxx && p[1] >= miny && p[1] <= maxy','    let _ = (miny, maxy);\n    p[0] >= minx && p[0] <= maxx')],
 PRE+XTRA+"""use cgar::operations::triangulation::delaunay::Delaunay;
fn main() {
    for order in [[0, 1, 2, 3], [1, 3, 0, 2], [2, 0, 3, 1], [3, 2, 1, 0], [0, 2, 1, 3], [1, 2, 0, 3]] {
        let all = [r2(0.0, 0.0), r2(2.0, 0.5), r2(0.0, 1.0), r2(0.0, 3.0)];
        let ps: Vec<_> = order.iter().map(|i| all[*i].clone()).collect();
        let d = Delaunay::build(&ps);
        let mut area = 0.0;
        for t in &d.triangles {
            let [a, b, c] = [t.0, t.1, t.2].map(|i| [fl(&ps[i][0]), fl(&ps[i][1])]);
            let x = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
            check(x > 0.0, "every triangle is counter-clockwise");
            area += x / 2.0;
        }
        check(area == 3.0, "the triangles tile the hull");
    }
}
""")
seed('s22-collapse-length','C17',
 'a target edge length that is far from one',
 'edges of acceptable length are collapsed, and the lengths do not settle around the target',
 [('src/mesh_processing/remesh.rs','        let thresh2 = collapse_len * collapse_len;','        let thresh2 = collapse_len.clone();')],
 PRE+"""use cgar::mesh_processing::remesh::RemeshOptions;
fn main() {
    // an octahedron with edges of 0.14, and a target to match
    let mut m: Mesh<CgarF64, 3> = Mesh::new();
    let h = 0.1;
    for p in [p3(h, 0.0, 0.0), p3(-h, 0.0, 0.0), p3(0.0, h, 0.0), p3(0.0, -h, 0.0), p3(0.0, 0.0, h), p3(0.0, 0.0, -h)] { m.add_vertex(p); }
    for t in [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]] { m.add_triangle(t[0], t[1], t[2]); }
    let mut o = RemeshOptions::new(CgarF64(0.1414));
    o.max_iterations = 1;
    m.isotropic_remesh(&o).unwrap();
    check(m.vertices.iter().filter(|v| !v.removed).count() == 6, "edges of the right length are neither split nor collapsed");
}
""")
seed('s23-trailing-comment','C19',
 'an OFF file with a comment behind the numbers of a line',
 'a well-formed file is rejected',
 [('src/io/off.rs','''            let trimmed = l.split('#').next().unwrap_or("").trim();
            if trimmed.is_empty() {''','''            let trimmed = l.trim();
            if trimmed.is_empty() || trimmed.starts_with('#') {''')],
 PRE+"""fn main() {
    let f = std::env::temp_dir().join(format!("cgar-demo-{}.off", std::process::id()));
    std::fs::write(&f, "OFF # header\\n# note\\n3 1 0\\n0 0 0\\n1 0 0 # second\\n0 1 0\\n3 0 1 2\\n").unwrap();
    let m = cgar::io::off::read_off::<CgarF64, _>(&f);
    std::fs::remove_file(&f).unwrap();
    check(m.map(|m| m.faces.len()).ok() == Some(1), "a file with comments must be read");
}
""")
seed('s24-plane-offset','C21',
 'a plane whose first non-zero normal coefficient is negative and that misses the origin',
 'the canonical form of a plane is a different plane',
 [('src/geometry/plane.rs','                plane.d = -plane.d;\n','')],
 PRE+"""use cgar::geometry::plane::*;
fn main() {
    let (a, b, c) = (r3(1.0, 2.0, 3.0), r3(1.0, 5.0, 3.0), r3(2.0, 2.0, 7.0));
    for q in [Plane::from_points([&a, &b, &c]), Plane::from_points([&a, &c, &b])] {
        let k = q.canonicalized();
        for p in [&a, &b, &c] {
            let s = (0..3).fold(fl(&k.d), |s, i| s + fl(&k.normal[i]) * fl(&p[i]));
            check(s.abs() < 1e-12, "the canonical plane must contain the points");
        }
    }
}
""")
seed('s25-approx-upper','C22',
 'boxes that touch or nearly touch at coordinates which are not f64 numbers',
 'the approximate test says that boxes are apart although they touch',
 [('src/geometry/aabb.rs','''            if let Some((_lo, hi)) = self.max[i].double_interval() {
                maxs[i] = hi;''','''            if let Some((lo, _hi)) = self.max[i].double_interval() {
                maxs[i] = lo;''')],
 PRE+"""fn main() {
    type P = Point<LazyExact, 2>;
    let n = |a: i32, b: i32| LazyExact::from_num_den(a, b);
    for k in 1..50 {
        // the same number, once computed and once given
        let x = |v: f64| LazyExact::from(v);
        let (e, f) = (&(&x(k as f64 / 16.0) + &x(1000000000.0)) - &x(1000000000.0), n(k, 16));
        let a = Aabb::<LazyExact, 2, P>::new(P::from_vals([n(-9, 1), n(0, 1)]), P::from_vals([e, n(1, 1)]));
        let b = Aabb::<LazyExact, 2, P>::new(P::from_vals([f, n(0, 1)]), P::from_vals([n(999, 1), n(1, 1)]));
        check(a.intersects_approx(&b) != Some(false) && b.intersects_approx(&a) != Some(false), "touching boxes must not be declared apart");
        check(a.intersects(&b), "the boxes touch");
    }
}
""")
seed('s26-merge-distance','C23',
 'two faces that meet in a segment shorter than a thousandth',
 'the segment shrinks to a point, which leaves a gap in the curve',
 [('src/geometry/tri_tri_intersect.rs','''    let merge2 = &merge * &merge;
    let mut uniq: Vec<EndpointInfo<T, N>> = Vec::with_capacity(2);''','''    let merge2 = merge;
    let mut uniq: Vec<EndpointInfo<T, N>> = Vec::with_capacity(2);''')],
 PRE+"""fn main() {
    let h = 1.0 / 4096.0;
    let mut a = Mesh::<CgarRational, 3>::new();
    for p in [r3(-2.0, -2.0, 0.0), r3(2.0, -2.0, 0.0), r3(0.0, 3.0, 0.0)] { a.add_vertex(p); }
    a.add_triangle(0, 1, 2);
    let mut b = Mesh::<CgarRational, 3>::new();
    for p in [r3(0.0, 0.5, 1.0), r3(h, 0.5, 1.0), r3(0.0, 0.5, -1.0)] { b.add_vertex(p); }
    b.add_triangle(0, 1, 2);
    let (sa, _) = a.get_mesh_intersections_3(&b);
    check(sa.len() == 1, "the faces cross");
    let (p, q) = (&sa[0].segment.a, &sa[0].segment.b);
    check((0..3).any(|k| p[k] != q[k]), "the faces meet in a segment with a length");
}
""")
seed('s27-sliver','C26',
 'regions that overlap in a strip thinner than a thousandth',
 'the strip vanishes, so the result covers the wrong points',
 [('src/geometry/tri_tri_intersect.rs','''    let merge2 = &merge * &merge;
    let mut uniq: Vec<Point<T, N>> = Vec::new();
    'dedupe_coplanar''','''    let merge2 = merge;
    let mut uniq: Vec<Point<T, N>> = Vec::new();
    'dedupe_coplanar''')],
 PRE+"""fn area(m: &Mesh<CgarRational, 2>) -> f64 {
    let g = |v: usize| { let p = &m.vertices[v].position; [fl(&p[0]), fl(&p[1])] };
    (0..m.faces.len()).filter(|f| !m.faces[*f].removed).map(|f| { let t = m.face_vertices(f); let [a, b, c] = [g(t[0]), g(t[1]), g(t[2])];
        ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / 2.0 }).sum()
}
fn main() {
    let r = |x: f64, y: f64| Point::<CgarRational, 2>::from_vals([CgarRational::from(x), CgarRational::from(y)]);
    let h = 1.0 / 4096.0;
    let mk = || {
        let mut a = Mesh::<CgarRational, 2>::new();
        for p in [r(0.0, 0.0), r(8.0, 0.0), r(0.0, 8.0)] { a.add_vertex(p); }
        a.add_triangle(0, 1, 2);
        let mut b = Mesh::<CgarRational, 2>::new();
        for p in [r(2.0, -1.0), r(2.0 + h, -1.0), r(2.0 + h, 1.0), r(2.0, 1.0)] { b.add_vertex(p); }
        b.add_triangle(0, 1, 2);
        b.add_triangle(0, 2, 3);
        (a, b)
    };
    for (op, want) in [(BooleanOp::Union, 32.0 + h), (BooleanOp::Intersection, h), (BooleanOp::Difference, 32.0 - h)] {
        let (mut a, mut b) = mk();
        let got = area(&a.corefine_and_boolean(&mut b, op));
        println!("area {got}, expected {want}");
        check((got - want).abs() < 1e-9, "the result must have the right area");
    }
}
""")

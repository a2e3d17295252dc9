import sys; sys.path.insert(0,'/verif/tools')
from plant import mk
PRE='''#![allow(unused_imports, dead_code)]
use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact, scalar::{Scalar, RefInto}};
use cgar::geometry::{Point2, Point3, Aabb, aabb_tree::AabbTree, spatial_element::SpatialElement, point::Point, vector::Vector};
use cgar::operations::Zero;
use cgar::mesh::{basic_types::*, edge_collapse::*, topology::*};
use cgar::geometry::point::PointOps;
use cgar::mesh_processing::boolean::*;
fn p3(x: f64, y: f64, z: f64) -> Point<CgarF64, 3> { Point::from_vals([CgarF64(x), CgarF64(y), CgarF64(z)]) }
fn r3(x: f64, y: f64, z: f64) -> Point<CgarRational, 3> { Point::from_vals([CgarRational::from(x), CgarRational::from(y), CgarRational::from(z)]) }
fn fl(x: &CgarRational) -> f64 { let y: CgarF64 = x.ref_into(); y.0 }
fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {}", what); std::process::exit(1); } }
fn boxm(l: [f64; 3], h: [f64; 3]) -> Mesh<CgarRational, 3> {
    let mut m = Mesh::new();
    for i in 0..8 { let c = |k: usize| if i >> k & 1 == 1 { h[k] } else { l[k] }; m.add_vertex(r3(c(0), c(1), c(2))); }
    for q in [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]] { m.add_triangle(q[0], q[1], q[2]); m.add_triangle(q[0], q[2], q[3]); }
    m
}
fn c(m: &Mesh<CgarRational, 3>, v: usize) -> [f64; 3] { let p = &m.vertices[v].position; [fl(&p[0]), fl(&p[1]), fl(&p[2])] }
/// closed (every directed edge met once by its opposite) and the enclosed volume
fn solid(m: &Mesh<CgarRational, 3>) -> (bool, f64) {
    let mut e = std::collections::BTreeMap::new(); let mut vol = 0.0;
    for f in 0..m.faces.len() { if m.faces[f].removed { continue; }
        let t = m.face_vertices(f); let [a, b, d] = [c(m, t[0]), c(m, t[1]), c(m, t[2])];
        vol += (a[0]*(b[1]*d[2]-b[2]*d[1]) - a[1]*(b[0]*d[2]-b[2]*d[0]) + a[2]*(b[0]*d[1]-b[1]*d[0])) / 6.0;
        for k in 0..3 { *e.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1; } }
    (e.iter().all(|(k, n)| *n == 1 && e.get(&(k.1, k.0)) == Some(&1)), vol)
}
fn volumes(mk: &dyn Fn() -> (Mesh<CgarRational, 3>, Mesh<CgarRational, 3>), want: [f64; 3]) {
    for (i, op) in [BooleanOp::Union, BooleanOp::Intersection, BooleanOp::Difference].into_iter().enumerate() {
        let (mut a, mut b) = mk();
        let r = a.corefine_and_boolean(&mut b, op);
        let (closed, v) = solid(&r);
        println!("op {i}: closed {closed}, volume {v}, expected {}", want[i]);
        check(closed, "the result must be closed");
        check((v - want[i]).abs() < 1e-6, "the result must have the right volume");
    }
}
'''
want=sys.argv[1:]
def seed(id,*a):
    if not want or any(id.startswith(w) for w in want): mk(id,*a)

seed('s07-smooth-shrinking-edges','C24',
 'a vertex with an edge longer than the limit before and after the move, which the move shortens',
 'smoothing accepts a move that leaves an edge longer than the limit',
 [('src/mesh/core.rs','''            if &len_sq > max_edge_length_sq {
                return false;  // Reject move
            }''','''            let old_sq = (a - b).as_vector().norm2();
            if &len_sq > max_edge_length_sq && len_sq > old_sq {
                return false;  // Reject move
            }''')],
 PRE+'''fn main() {
    let mut m: Mesh<CgarF64, 3> = Mesh::new();
    for p in [p3(1.0, 0.0, 0.0), p3(-10.0, 0.0, 0.0), p3(2.0, -2.0, 0.0), p3(3.0, 0.0, 0.0), p3(2.0, 2.0, 0.0)] { m.add_vertex(p); }
    for i in 0..4 { m.add_triangle(0, 1 + i, 1 + (i + 1) % 4); }
    let moved = m.smooth_tangential(0, CgarF64(0.5), &CgarF64(25.0));
    check(!moved && m.vertices[0].position[0].0 == 1.0, "a move that leaves an edge longer than the limit must be refused");
}
''')
seed('s08-edge-in-plane','C07',
 'two triangles where the edge between the first and third corner of one lies in the plane of the other',
 'the wrong edge is clipped against the other triangle in the detailed query',
 [('src/geometry/tri_tri_intersect.rs','''        // Coplanar segment of P on triangle Q
        let (i, j) = match zero_p {
            [true, true, false] => (0, 1),
            [true, false, true] => (0, 2),
            [false, true, true] => (1, 2),
            _ => unreachable!(),
        };
        if let Some((a3, b3)) = clip_segment_to_triangle_in_plane(p[i], p[j], q, &pre_q.n) {
            // Classify''','''        // Coplanar segment of P on triangle Q
        let (i, j) = match zero_p {
            [true, true, false] => (0, 1),
            [false, true, true] => (1, 2),
            _ => (2, 1),
        };
        if let Some((a3, b3)) = clip_segment_to_triangle_in_plane(p[i], p[j], q, &pre_q.n) {
            // Classify''')],
 PRE+'''use cgar::geometry::tri_tri_intersect::*;
fn main() {
    let q = [r3(-4., -4., 0.), r3(8., -4., 0.), r3(-4., 8., 0.)];
    let p = [r3(0., 0., 0.), r3(1., 1., 2.), r3(1., 0., 0.)];
    for rot in 0..3 {
        let p = [&p[rot], &p[(rot + 1) % 3], &p[(rot + 2) % 3]];
        let q = [&q[0], &q[1], &q[2]];
        match tri_tri_intersection_with_precomp_detailed(&p, &q, &TriPrecomp::new(&p), &TriPrecomp::new(&q)) {
            TriTriIntersectionDetailed::Coplanar { segs } => {
                check(segs.len() == 1, "one segment");
                for e in &segs[0] { check(fl(&e.point[1]) == 0.0 && fl(&e.point[2]) == 0.0, "the common segment is the edge in the plane"); }
            }
            _ => check(false, "the triangles share a segment"),
        }
    }
}
''')
seed('s09-coarse-point-key','C01',
 'two points of the intersection curve inside one face closer together than a hundredth',
 'nearby points of the intersection curve inside a face are taken for one point',
 [('src/mesh_processing/boolean.rs','''    let s = 1.0 / tol_approx.0;''','''    let s = 1.0 / tol_approx.0.cbrt();''')],
 PRE+'''fn main() {
    let d = 1.0 / 256.0;
    let mk = || (boxm([0.0; 3], [4.0; 3]), boxm([1.5, 1.25, 1.0], [1.5 + d, 1.25 + d, 7.0]));
    let i = d * d * 3.0; let b = d * d * 6.0;
    volumes(&mk, [64.0 + b - i, i, 64.0 - i]);
}
''')
seed('s10-chain-order','C14',
 'a constraint straight down with two or more given points on it',
 'points on a downward constraint are chained in the wrong order, so parts of it are not in the triangulation',
 [('src/operations/triangulation/delaunay.rs','''    &ap0 * &ab0 + &ap1 * &ab1
}''','''    if ab0.is_zero() {
        return ap1;
    }
    &ap0 * &ab0 + &ap1 * &ab1
}''')],
 PRE+'''use cgar::operations::triangulation::delaunay::*;
use cgar::mesh_processing::batching::FaceJobUV;
fn p2(x: f64, y: f64) -> Point2<CgarRational> { Point::from_vals([CgarRational::from(x), CgarRational::from(y)]) }
fn main() {
    let pts = vec![p2(0., 8.), p2(0., 0.), p2(0., 2.), p2(0., 6.), p2(-0.25, 1.), p2(0.25, 1.), p2(-0.25, 4.), p2(0.25, 4.), p2(-0.25, 7.), p2(0.25, 7.), p2(-9., 4.), p2(9., 4.)];
    let m: Mesh<CgarRational, 3> = Mesh::new();
    let job = FaceJobUV { face_id: 0, verts_global: (0..pts.len()).collect(), points_uv: pts.clone(), segments: vec![[0, 1]] };
    for con in [[0, 1], [1, 0]] {
        let dt = Delaunay::build_with_constraints_bowyer_watson(&pts, &[con], &m, &job);
        let has = |a: usize, b: usize| dt.triangles.iter().any(|t| { let v = [t.0, t.1, t.2]; v.contains(&a) && v.contains(&b) });
        check(has(0, 3) && has(3, 2) && has(2, 1), "the constraint must be a chain of edges");
    }
}
''')
seed('s11-collapse-other-side','C12',
 'a collapse that turns over or flattens a triangle at the removed vertex only',
 'triangles around the removed vertex are not examined at their new shape',
 [('src/mesh/edge_collapse.rs','if idx == v_keep || idx == v_gone { p_star } else { &self.vertices[idx].position }','if idx == v_keep { p_star } else { &self.vertices[idx].position }')],
 PRE+'''struct Keep;
impl Placement<CgarRational, 3> for Keep { fn place(&self, m: &Mesh<CgarRational, 3>, a: usize, _b: usize) -> Point<CgarRational, 3> { m.vertices[a].position.clone() } }
fn main() {
    // u = 0 is kept where it is; v = 1 is removed; its triangle (1, 6, 5) turns over when 1 moves to 0
    let mut m: Mesh<CgarRational, 3> = Mesh::new();
    for p in [r3(0., 0., 0.), r3(4., 0., 0.), r3(2., 3., 0.), r3(-3., 0., 0.), r3(2., -3., 0.), r3(5., 2., 0.), r3(3., 1., 0.)] { m.add_vertex(p); }
    for t in [[0, 1, 2], [1, 0, 4], [0, 2, 3], [0, 3, 4], [1, 6, 2], [1, 5, 6], [1, 4, 5]] { m.add_triangle(t[0], t[1], t[2]); }
    let opts = CollapseOpts { area_eps2: CgarRational::zero(), forbid_border: false, forbid_normal_flip: true };
    let r = m.collapse_edge_begin_vertices(0, 1, &Keep, &opts);
    check(r.is_err(), "a collapse that turns a triangle over must be refused");
}
''')
seed('s14-unused-after-removal','C20',
 'compacting a mesh in which every triangle at some vertex has been removed',
 'vertices that only removed triangles use are kept',
 [('src/mesh/core.rs','''        let mut used = vec![false; self.vertices.len()];
        for face_idx in 0..self.faces.len() {
            // Skip removed faces
            if self.faces[face_idx].removed {
                continue;
            }
''','''        let mut used = vec![false; self.vertices.len()];
        for face_idx in 0..self.faces.len() {
''')],
 PRE+'''fn main() {
    let mut m: Mesh<CgarF64, 3> = Mesh::new();
    for p in [p3(0., 0., 0.), p3(1., 0., 0.), p3(0., 1., 0.), p3(1., 1., 0.)] { m.add_vertex(p); }
    m.add_triangle(0, 1, 2); m.add_triangle(1, 3, 2);
    m.remove_triangle(1);
    m.remove_unused_vertices();
    check(m.vertices.len() == 3, "a vertex without triangles must be dropped");
    check(m.faces.iter().filter(|f| !f.removed).count() == 1, "the triangle must stay");
}
''')
seed('s15-obj-dead-vertices','C18',
 'writing a mesh that has removed vertices before live ones',
 'the OBJ writer leaves out removed vertices but numbers the faces as if they were there',
 [('src/io/obj.rs','''    for v in &mesh.vertices {
''','''    for v in mesh.vertices.iter().filter(|v| !v.removed) {
''')],
 PRE+'''fn main() {
    let mut m = boxm([0.0; 3], [2.0; 3]);
    m.collapse_edge(1, 0).or_else(|_| m.collapse_edge(3, 1)).expect("a collapse");
    let (_, v) = solid(&m);
    let path = std::env::current_dir().unwrap().join("m.obj");
    cgar::io::obj::write_obj(&m, &path).unwrap();
    let r: Mesh<CgarRational, 3> = cgar::io::obj::read_obj(&path).expect("readable");
    let (closed, w) = solid(&r);
    check(closed && (v - w).abs() < 1e-9, "the file must hold the same solid");
}
''')
seed('s16-third-edge-weight','C16',
 'locating a point on the third edge of a face, away from its middle',
 'the parameter along the third edge of a face is measured from the wrong end',
 [('src/mesh/topology.rs','if l1.is_zero() { return Some((e2, l0.clone())); }','if l1.is_zero() { return Some((e2, l2.clone())); }')],
 PRE+'''fn main() {
    let mut m: Mesh<CgarRational, 3> = Mesh::new();
    for p in [r3(0., 0., 0.), r3(4., 0., 0.), r3(0., 4., 0.)] { m.add_vertex(p); }
    m.add_triangle(0, 1, 2);
    for q in [r3(1., 0., 0.), r3(3., 1., 0.), r3(0., 1., 0.)] {
        match m.find_valid_face(0, &q) {
            FindFaceResult::OnEdge { he, u, .. } => {
                let (s, t) = (c(&m, m.half_edges[m.half_edges[he].prev].vertex), c(&m, m.half_edges[he].vertex));
                let u = fl(&u);
                for k in 0..3 { check((s[k] + u * (t[k] - s[k]) - fl(&q[k])).abs() < 1e-9, "the parameter must give the point"); }
            }
            _ => check(false, "the point is on an edge"),
        }
    }
}
''')
seed('s12-ray-edge-order','C15',
 'a ray whose nearest hit is on an edge and that also meets a farther face',
 'an edge hit does not replace a farther hit found before it',
 [('src/mesh/topology.rs','''                            if best_t.is_none() || t < best_t.clone().unwrap() {
                                best_t = Some(t.clone());
                                best_result = IntersectionResult::Hit(IntersectionHit::Edge(src''','''                            if best_t.is_none() {
                                best_t = Some(t.clone());
                                best_result = IntersectionResult::Hit(IntersectionHit::Edge(src''')],
 PRE+'''fn main() {
    for rev in [1.0, -1.0] { { let s = 2.0;
        // two triangles with a common edge at z = 1 and a single triangle at z = 3, seen from both sides
        let mut m: Mesh<CgarRational, 3> = Mesh::new();
        for p in [r3(-1., 0., rev), r3(1., 0., rev), r3(0., 2., rev), r3(0., -2., rev), r3(s - 9., -9., 3. * rev), r3(s + 9., -9., 3. * rev), r3(s, 12., 3. * rev), r3(-s - 9., -19., 4. * rev), r3(-s + 9., -19., 4. * rev), r3(-s, 12., 4. * rev)] { m.add_vertex(p); }
        m.add_triangle(4, 5, 6); m.add_triangle(7, 8, 9); m.add_triangle(0, 1, 2); m.add_triangle(1, 0, 3);
        let tree = m.build_face_tree();
        let o = r3(0.25, 0.0, 0.0);
        let d = r3(0., 0., rev).as_vector();
        match m.cast_ray_3(&o, &d, &tree, &None) {
            IntersectionResult::Hit(_, t) => check(t == CgarRational::from(1.0), "the nearest hit is at 1"),
            IntersectionResult::Miss => check(false, "the ray meets the mesh"),
        }
    } }
}
''')
seed('s13-neighbour-points','C25',
 'solids in contact, where a shared edge is met by the other solid on one side only',
 'a point on an edge is not handed to the second face at the edge, which leaves a crack',
 [('src/mesh_processing/batching.rs','''            if let Some(faces) = ep.faces_hint {
                for &face_id in &faces {
                    if face_id != usize::MAX && face_id != seg.initial_face_reference {
                        // This''','''            if let Some(faces) = ep.faces_hint {
                for &face_id in &faces[..1] {
                    if face_id != usize::MAX && face_id != seg.initial_face_reference {
                        // This''')],
 PRE+'''fn main() {
    // flush on top of the first box, with two sides flush as well
    for (l, h) in [([1.0, 1.0, 4.0], [3.0, 2.0, 5.0]), ([0.0, 0.0, 4.0], [2.0, 1.0, 5.0]), ([0.0, 1.0, 4.0], [1.0, 3.0, 6.0])] {
        let b = (h[0] - l[0]) * (h[1] - l[1]) * (h[2] - l[2]);
        let mk = || (boxm([0.0; 3], [4.0; 3]), boxm(l, h));
        volumes(&mk, [64.0 + b, 0.0, 64.0]);
    }
}
''')

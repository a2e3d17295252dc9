import sys; sys.path.insert(0,'/verif/tools')
from plant import mk
PRE='''use cgar::numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational, lazy_exact::LazyExact, scalar::Scalar};
use cgar::geometry::{Point2, Point3, Aabb, aabb_tree::AabbTree, spatial_element::SpatialElement, point::Point};
use cgar::operations::Zero;
use cgar::mesh::{basic_types::*, edge_collapse::*};
#[allow(dead_code)] fn p3(x: f64, y: f64, z: f64) -> Point<CgarF64, 3> { Point::from_vals([CgarF64(x), CgarF64(y), CgarF64(z)]) }
#[allow(dead_code)] fn r3(x: f64, y: f64, z: f64) -> Point<CgarRational, 3> { Point::from_vals([CgarRational::from(x), CgarRational::from(y), CgarRational::from(z)]) }
#[allow(dead_code)] fn check(ok: bool, what: &str) { if !ok { println!("FAILED: {}", what); std::process::exit(1); } }
'''
PRE='#![allow(unused_imports)]\n'+PRE
mk('s01-ball-product-radius','C02',
 'a product whose left factor is itself inexact, used where the sign hinges on its rounding error',
 'the error radius of a product forgets the uncertainty of one factor, so the filter decides signs it cannot know',
 [('src/numeric/ball.rs','''            r: self.m.abs() * o.r
                + o.m.abs() * self.r
                + self.r * o.r
''','''            r: self.m.abs() * o.r
                + self.r * o.r
''')],
 PRE+'''fn main() {
    // u is exactly zero, but only known to within the rounding of the cancellation
    let l = |x: f64| LazyExact::from(x);
    for d in 3..60 {
        let q = &l(1.0) / &l(d as f64);
        let u = &(&(&q + &l(1.0e6)) - &l(1.0e6)) - &q;
        let w = &u * &l(5.0);
        check(w.is_zero() && !w.is_positive() && !w.is_negative(), "5 * 0 must be zero");
    }
}
''')
mk('s02-tree-insert-dead-subtree','C08',
 'an insertion that lands in a subtree all of whose entries were invalidated before',
 'entries inserted into a fully invalidated subtree are never returned by the valid-only query',
 [('src/geometry/aabb_tree.rs','''                *valid_count += 1;
                *total_count += 1;
''','''                if *valid_count > 0 {
                    *valid_count += 1;
                }
                *total_count += 1;
''')],
 PRE+'''fn b(x: f64) -> Aabb<CgarF64, 3, Point<CgarF64, 3>> { Aabb::from_points(&p3(x, 0.0, 0.0), &p3(x + 0.5, 0.5, 0.5)) }
fn main() {
    let mut t = AabbTree::build((0..8).map(|i| (b(i as f64), i)).collect());
    for i in 0..4 { t.invalidate(&i); }
    t.insert(b(1.25), 100);
    let mut out = Vec::new();
    t.query_valid(&b(1.25), &mut out);
    check(out.contains(&&100), "the new entry must be found");
}
''')
mk('s03-flip-vertex-handle','C11',
 'flipping an edge that is the representative half-edge of its end vertex',
 'after a flip the vertex keeps pointing at the flipped half-edge, which no longer leaves it',
 [('src/mesh/core.rs','''        if self.vertices[b].half_edge == Some(he_ba) { self.vertices[b].half_edge = Some(he_bc); }
''','''        if self.vertices[b].half_edge == Some(he_ca) { self.vertices[b].half_edge = Some(he_bc); }
''')],
 PRE+'''fn main() {
    // all edges of a square pyramid fan, both directions
    for k in 0..4usize { for rev in [false, true] {
        let mut m: Mesh<CgarF64, 3> = Mesh::new();
        let ps = [p3(0.,0.,1.), p3(1.,0.,0.), p3(0.,1.,0.), p3(-1.,0.,0.), p3(0.,-1.,0.), p3(0.,0.,-1.)];
        for p in ps { m.add_vertex(p); }
        for i in 0..4 { let (a, b) = (1 + i, 1 + (i + 1) % 4); m.add_triangle(0, a, b); m.add_triangle(5, b, a); }
        let (a, b) = if rev { (1 + k, 0) } else { (0, 1 + k) };
        let h = m.edge_map[&(a, b)];
        m.flip_edge(h).unwrap();
        for v in 0..6 {
            let h = m.vertices[v].half_edge.unwrap();
            let from = m.half_edges[m.half_edges[h].prev].vertex;
            check(from == v, "every vertex's half-edge must leave it");
        }
    } }
}
''')
mk('s05-deferred-removal-vertex','C09',
 'batched removal of a face whose third corner is represented by a half-edge that dies',
 'after a batched removal a vertex keeps pointing at a removed half-edge',
 [('src/mesh/triangle.rs','''            affected_vs.push(self.half_edges[self.half_edges[he0].twin].vertex);
            affected_vs.push(self.half_edges[self.half_edges[he1].twin].vertex);
            affected_vs.push(self.half_edges[self.half_edges[he2].twin].vertex);
''','''            affected_vs.push(self.half_edges[self.half_edges[he0].twin].vertex);
            affected_vs.push(self.half_edges[he0].vertex);
''')],
 PRE+'''fn main() {
    for f in 0..4usize { for g in 0..4usize { for rot in 0..3usize {
        let mut m: Mesh<CgarF64, 3> = Mesh::new();
        let ps = [p3(0.,0.,0.), p3(1.,0.,0.), p3(0.,1.,0.), p3(-1.,0.,0.), p3(0.,-1.,0.)];
        for p in ps { m.add_vertex(p); }
        for i in 0..4 { let t = [0, 1 + i, 1 + (i + 1) % 4]; m.add_triangle(t[rot % 3], t[(rot + 1) % 3], t[(rot + 2) % 3]); }
        let (starts, vs) = m.remove_triangles_deferred(&[f, g]);
        m.weld_border_components_from(&starts);
        m.fix_vertices_outgoing_for(&vs);
        for v in 0..5 { if let Some(h) = m.vertices[v].half_edge { check(!m.half_edges[h].removed, "a vertex points at a removed half-edge"); } }
    } } }
}
''')
mk('s06-split-corner','C10',
 'splitting an interior edge one end of which is represented by the half-edge being split',
 'after splitting an interior edge a corner keeps pointing at the removed half-edge',
 [('src/mesh/core.rs','''        self.vertices[c].half_edge = Some(he_cd); // c -> d
''','''''')],
 PRE+'''fn main() {
    for e in 0..8usize {
        let mut m: Mesh<CgarF64, 3> = Mesh::new();
        for p in [p3(0.,0.,0.), p3(4.,0.,0.), p3(0.,4.,0.), p3(-4.,0.,0.), p3(0.,-4.,0.)] { m.add_vertex(p); }
        for i in 0..4 { m.add_triangle(0, 1 + i, 1 + (i + 1) % 4); }
        let mut t = m.build_face_tree();
        let k = 1 + e % 4;
        let (a, b) = if e < 4 { (0, k) } else { (k, 0) };
        let h = m.edge_map[&(a, b)];
        let mid = [p3(2.,0.,0.), p3(0.,2.,0.), p3(-2.,0.,0.), p3(0.,-2.,0.)];
        m.split_edge(&mut t, h, &mid[k - 1], true).unwrap();
        for v in 0..6 { let h = m.vertices[v].half_edge.unwrap(); check(!m.half_edges[h].removed, "a vertex points at a removed half-edge"); }
    }
}
''')

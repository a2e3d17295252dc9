//! Point-in-mesh queries and ray casting.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::geometry::vector::Vector;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::basic_types::{IntersectionHit, IntersectionResult, PointInMeshResult};
use cgar::mesh::topology::{ray_segment_intersection_2d, VertexRayResult};
use std::collections::BTreeSet;

pub const SPEC: Spec = Spec {
    id: "C15",
    rule: "a query point inside or on a mesh, or a ray that meets the mesh, was compared with the exact answer",
    quick: 250_000,
    thorough: 3_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    match c.s.weighted(&[4, 4, 2, 2, 1]) {
        0 => by_num!(c, inside3(c)),
        1 => by_num!(c, ray3(c)),
        2 => by_num!(c, inside2(c)),
        3 => by_num!(c, vertex_ray(c)),
        _ => by_num!(c, ray2(c)),
    }
}

/// 0 outside, 1 inside, 2 on the surface
pub fn locate(p: &V3, ps: &[V3], ts: &[[usize; 3]]) -> u8 {
    if ts.iter().any(|t| in_tri3(p, &ps[t[0]], &ps[t[1]], &ps[t[2]]) != 0) {
        return 2;
    }
    for k in 1i64.. {
        // directions on a curve no plane meets more than three times
        let d = [Q::i(1), Q::i(k), Q::nd(k * k * k, 7)];
        if let Some(w) = winding(p, &d, ps, ts) {
            return (w != 0) as u8;
        }
    }
    unreachable!()
}

/// a point chosen relative to the mesh: corner, on an edge, on a face, near one, or in the box
pub fn gen_query(c: &mut Case, s: &Soup<3>) -> V3 {
    let t = *c.s.pick(&s.t);
    let [a, b, d] = t.map(|v| s.p[v].clone());
    let mut w = [Q::i(0), Q::i(0), Q::i(0)];
    match c.s.weighted(&[1, 2, 3, 4]) {
        0 => return a,
        1 => {
            let k = c.s.int(1, 7);
            w[0] = Q::nd(k, 8);
            w[1] = Q::nd(8 - k, 8);
        }
        2 => {
            let i = c.s.int(1, 5);
            let j = c.s.int(1, 7 - i);
            w = [Q::nd(i, 8), Q::nd(j, 8), Q::nd(8 - i - j, 8)];
        }
        _ => {
            // anywhere on a half grid around the mesh's box, or a mean of two corners
            if c.s.bool() {
                let o = &s.p[c.s.below(s.p.len())];
                return scalen(&addn(&a, o), &Q::nd(1, 2));
            }
            let o = &s.p[c.s.below(s.p.len())];
            return std::array::from_fn(|k| &o[k] + &Q::nd(c.s.int(-8, 8), 4));
        }
    }
    let p: V3 = std::array::from_fn(|k| &(&(&a[k] * &w[0]) + &(&b[k] * &w[1])) + &(&d[k] * &w[2]));
    if c.s.chance(1, 3) {
        // step off the surface along a grid direction
        let e: V3 = std::array::from_fn(|_| Q::nd(c.s.int(-1, 1), 4));
        return addn(&p, &e);
    }
    p
}

/// one or two closed meshes side by side or nested
fn gen_solid(c: &mut Case, rational: bool) -> Soup<3> {
    let mut s = gen_closed(c, true, rational);
    if c.s.chance(1, 5) {
        // second component, far enough not to touch
        let mut t = gen_closed(c, false, rational);
        let hi = s.p.iter().map(|p| p[0].clone()).max().unwrap();
        let lo = t.p.iter().map(|p| p[0].clone()).min().unwrap();
        let dx = &(&hi - &lo) + &Q::i(1);
        for p in t.p.iter_mut() {
            p[0] = &p[0] + &dx;
        }
        let n = s.p.len();
        s.p.extend(t.p);
        s.t.extend(t.t.iter().map(|t| t.map(|v| v + n)));
        c.label("two-components");
    }
    s
}

gfn! {
/// split a few edges and faces, keeping the tree up to date; the shape stays the same
fn refine(c: &mut Case, m: &mut Mesh<T, 3>, tree: &mut AabbTree<T, 3, Point<T, 3>, usize>, s: &mut Soup<3>) -> R {
    c.label("split-first");
    for _ in 0..1 + c.s.below(3) {
        let fs = live_faces(m);
        let f = *c.s.pick(&fs);
        let t = face_tri(m, f)?;
        let pos: V3 = if c.s.bool() {
            lerpn(&s.p[t[0]], &s.p[t[1]], &Q::nd(1, 2))
        } else {
            lerpn(&lerpn(&s.p[t[0]], &s.p[t[1]], &Q::nd(1, 2)), &s.p[t[2]], &Q::nd(1, 2))
        };
        if !T::EXACT && !super::geogen::short(&pos) { break; }
        m.split_face(tree, f, &pt(&pos), true).map_err(|e| format!("split refused: {e}"))?;
        s.p.push(pos);
        s.t = tris(m)?;
    }
    Ok(())
}
}

gfn! {
fn inside3(c: &mut Case) -> R {
    let mut s = gen_solid(c, T::EXACT);
    let mut m = build_mesh!(T, 3, &s);
    let mut tree = m.build_face_tree();
    if c.s.chance(1, 4) {
        refine::<T>(c, &mut m, &mut tree, &mut s)?;
        if c.s.bool() { tree = m.build_face_tree(); }
    }
    let n = 1 + c.s.below(6);
    for _ in 0..n {
        let p = gen_query(c, &s);
        let want = [PointInMeshResult::Outside, PointInMeshResult::Inside, PointInMeshResult::OnSurface][locate(&p, &s.p, &s.t) as usize];
        c.note(|| format!("{} point {} in mesh {:?} {:?}: {want:?}", T::NAME, fmtv(&p), s.p.iter().map(fmtv).collect::<Vec<_>>(), s.t));
        let got = m.point_in_mesh_3(&tree, &pt(&p));
        ensure!(got == want, "point {} is {got:?}, expected {want:?}", fmtv(&p));
        match want {
            PointInMeshResult::Outside => c.label("outside"),
            PointInMeshResult::Inside => { c.nontrivial = true; c.label("inside") }
            PointInMeshResult::OnSurface => { c.nontrivial = true; c.label("on-surface") }
        }
    }
    Ok(())
}
}

gfn! {
fn near(got: &T, want: &Q) -> bool {
    if T::EXACT { got.q() == *want } else { (got.ball_center_f64() - want.to_f64()).abs() <= 1e-7 * (1.0 + want.to_f64().abs()) }
}
}

gfn! {
fn ray3(c: &mut Case) -> R {
    let mut s = gen_surface(c, true, T::EXACT);
    let mut m = build_mesh!(T, 3, &s);
    let tree = if c.s.chance(1, 4) && s.t.len() > 1 {
        // a face that is gone must not be hit, whenever the tree was built
        let k = c.s.below(s.t.len());
        let mut rest = s.t.clone();
        rest.remove(k);
        if vertex_manifold(&rest) {
            c.label("face-removed");
            let before = m.build_face_tree();
            m.remove_triangle(k);
            s.t = rest;
            if c.s.bool() { before } else { m.build_face_tree() }
        } else { m.build_face_tree() }
    } else {
        let mut tree = m.build_face_tree();
        if c.s.chance(1, 4) { refine::<T>(c, &mut m, &mut tree, &mut s)?; }
        tree
    };
    for _ in 0..1 + c.s.below(5) {
        let o = gen_query(c, &s);
        // towards a query point or along a grid direction
        let d: V3 = if c.s.bool() { subn(&gen_query(c, &s), &o) } else { std::array::from_fn(|_| Q::i(c.s.int(-2, 2))) };
        if is0n(&d) { continue; }
        // exact answer over faces that are not parallel to the ray
        let mut best: Option<Q> = None;
        let mut at: Vec<([usize; 3], [Q; 3])> = Vec::new();
        for t in &s.t {
            let [a, b, e] = t.map(|v| s.p[v].clone());
            let n = cross3(&subn(&b, &a), &subn(&e, &a));
            let den = dotn(&n, &d);
            if den.is0() { continue; }
            let k = &dotn(&n, &subn(&a, &o)) / &den;
            if k.sgn() < 0 { continue; }
            let hit = addn(&o, &scalen(&d, &k));
            let w = bary3(&hit, &a, &b, &e);
            if w.iter().any(|x| x.sgn() < 0) { continue; }
            if best.as_ref().is_none_or(|x| k < *x) { best = Some(k.clone()); at.clear(); }
            if best.as_ref() == Some(&k) { at.push((*t, w)); }
        }
        c.note(|| format!("{} ray from {} along {} expected {:?}", T::NAME, fmtv(&o), fmtv(&d), best));
        let dir = Vector::<T, 3>(pt(&d));
        let got = m.cast_ray_3(&pt(&o), &dir, &tree, &None);
        let (hit, k) = match (got, &best) {
            (IntersectionResult::Miss, None) => { c.label("miss"); continue; }
            (IntersectionResult::Miss, Some(k)) => return Err(format!("the ray from {} along {} misses, expected a hit at {k}", fmtv(&o), fmtv(&d))),
            (IntersectionResult::Hit(h, k), None) => return Err(format!("the ray from {} along {} hits {h:?} at {k:?}, expected a miss", fmtv(&o), fmtv(&d))),
            (IntersectionResult::Hit(h, k), Some(_)) => (h, k),
        };
        let want = best.unwrap();
        c.nontrivial = true;
        ensure!(near::<T>(&k, &want), "hit at parameter {}, expected {want}", k.ball_center_f64());
        // the feature reported is one the nearest point lies on
        let zeros = |w: &[Q; 3]| w.iter().filter(|x| x.is0()).count();
        match hit {
            IntersectionHit::Vertex(v) => {
                c.label("hit-vertex");
                ensure!(at.iter().any(|(t, w)| zeros(w) == 2 && (0..3).any(|i| t[i] == v && !w[i].is0())), "vertex {v} is not where the ray hits");
            }
            IntersectionHit::Edge(a, b, u) => {
                c.label("hit-edge");
                let p = addn(&o, &scalen(&d, &want));
                ensure!(at.iter().any(|(t, w)| zeros(w) == 1 && (0..3).any(|i| w[i].is0() && !([a, b].contains(&t[i])) && t.contains(&a) && t.contains(&b))), "edge ({a}, {b}) is not where the ray hits");
                let e = subn(&s.p[b], &s.p[a]);
                let wu = &dotn(&subn(&p, &s.p[a]), &e) / &dotn(&e, &e);
                ensure!(near::<T>(&u, &wu), "edge parameter {}, expected {wu}", u.ball_center_f64());
            }
            IntersectionHit::Face(f, (w0, w1, w2)) => {
                c.label("hit-face");
                let t = face_tri(&m, f)?;
                let Some((_, w)) = at.iter().find(|(x, _)| norm_tris(&[*x]) == norm_tris(&[t])) else { return Err(format!("face {t:?} is not where the ray hits")) };
                ensure!(zeros(w) == 0, "hit on the border of face {t:?} reported as inside");
                let x = at.iter().find(|(x, _)| norm_tris(&[*x]) == norm_tris(&[t])).unwrap();
                for (k, g) in [w0, w1, w2].iter().enumerate() {
                    let j = (0..3).find(|j| x.0[*j] == t[k]).unwrap();
                    ensure!(near::<T>(g, &x.1[j]), "weight {k} on face {t:?} is {}, expected {}", g.ball_center_f64(), x.1[j]);
                }
            }
        }
    }
    Ok(())
}
}

gfn! {
fn inside2(c: &mut Case) -> R {
    let s = gen_planar(c, T::EXACT);
    let m = build_mesh!(T, 2, &s);
    let dir: BTreeSet<(usize, usize)> = s.t.iter().flat_map(|t| dir_edges(*t)).collect();
    for _ in 0..1 + c.s.below(8) {
        let t = *c.s.pick(&s.t);
        let p: V2 = match c.s.below(4) {
            0 => s.p[t[0]].clone(),
            1 => scalen(&addn(&s.p[t[0]], &s.p[t[1]]), &Q::nd(1, 2)),
            2 => std::array::from_fn(|k| &(&(&s.p[t[0]][k] * &Q::nd(1, 2)) + &(&s.p[t[1]][k] * &Q::nd(1, 4))) + &(&s.p[t[2]][k] * &Q::nd(1, 4))),
            _ => { let o = &s.p[c.s.below(s.p.len())]; std::array::from_fn(|k| &o[k] + &Q::nd(c.s.int(-6, 6), 4)) }
        };
        // on the outline either answer is acceptable
        if dir.iter().any(|(a, b)| !dir.contains(&(*b, *a)) && on_segment(&p, &s.p[*a], &s.p[*b])) { c.label("outline"); continue; }
        let want = s.t.iter().any(|t| in_tri2(&p, &s.p[t[0]], &s.p[t[1]], &s.p[t[2]]) != 0);
        c.note(|| format!("{} point {} in {:?} {:?}: {want}", T::NAME, fmtv(&p), s.p.iter().map(fmtv).collect::<Vec<_>>(), s.t));
        let got = m.point_in_mesh_2(&pt(&p));
        ensure!(got == want, "point {} inside: {got}, expected {want}", fmtv(&p));
        if want { c.nontrivial = true; c.label("inside-2d"); } else { c.label("outside-2d"); }
    }
    Ok(())
}
}

gfn! {
fn vertex_ray(c: &mut Case) -> R {
    let s = gen_surface(c, false, T::EXACT);
    let m = build_mesh!(T, 3, &s);
    for _ in 0..1 + c.s.below(4) {
        let fs = live_faces(&m);
        let f = *c.s.pick(&fs);
        let t = face_tri(&m, f)?;
        let k = c.s.below(3);
        let (v, a, b) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
        let (p0, pa, pb) = (&s.p[v], &s.p[a], &s.p[b]);
        let n = cross3(&subn(pa, p0), &subn(pb, p0));
        // in-plane direction plus something along the normal
        let (x, y) = (Q::nd(c.s.int(-4, 8), 4), Q::nd(c.s.int(-4, 8), 4));
        let flat = addn(&scalen(&subn(pa, p0), &x), &scalen(&subn(pb, p0), &y));
        let up = Q::nd(c.s.int(-2, 2), 2);
        let d = addn(&flat, &scalen(&n, &up));
        c.note(|| format!("{} from vertex {v} of {t:?} along {} (weights {x} {y})", T::NAME, fmtv(&d)));
        let dir = Vector::<T, 3>(pt(&d));
        let plain = c.s.bool();
        let got = if plain { m.cast_ray_from_vertex_in_triangle(f, v, &dir) } else { m.cast_ray_from_vertex_in_triangle_3(f, v, &dir) };
        if x.is0() && y.is0() {
            ensure!(got.is_none(), "a ray that leaves the plane squarely hits {got:?}");
            c.label("no-direction");
            continue;
        }
        if x.is0() || y.is0() {
            // along a side: the half-edge that runs the same way
            let (w, sign) = if y.is0() { (a, x.sgn()) } else { (b, y.sgn()) };
            let (from, to) = if sign > 0 { (v, w) } else { (w, v) };
            match got {
                Some(VertexRayResult::CollinearWithEdge(he)) => ensure!(m.source(he) == from && m.target(he) == to, "ray along {from}->{to} gives half-edge {}->{}", m.source(he), m.target(he)),
                other => return Err(format!("a ray along side {from}->{to} gives {other:?}")),
            }
            c.label("along-side");
            continue;
        }
        if x.sgn() < 0 || y.sgn() < 0 {
            // leaves the triangle at once
            ensure!(got.is_none(), "a ray pointing out of the triangle hits {got:?}");
            c.label("outwards");
            continue;
        }
        // p0 + k d_flat on the line a-b: k = 1/(x+y), at b with weight y/(x+y)
        let sum = &x + &y;
        match got {
            Some(VertexRayResult::EdgeIntersection { half_edge, distance, edge_parameter }) => {
                ensure!(m.source(half_edge) == a && m.target(half_edge) == b, "the ray leaves through {}->{}, expected {a}->{b}", m.source(half_edge), m.target(half_edge));
                let (wd, wu) = (&Q::i(1) / &sum, &y / &sum);
                ensure!(near::<T>(&distance, &wd), "distance {}, expected {wd}", distance.ball_center_f64());
                ensure!(near::<T>(&edge_parameter, &wu), "edge parameter {}, expected {wu}", edge_parameter.ball_center_f64());
            }
            other => return Err(format!("a ray into the triangle gives {other:?}")),
        }
        c.nontrivial = true;
        c.label("crosses");
    }
    Ok(())
}
}

gfn! {
fn ray2(c: &mut Case) -> R {
    let g = |c: &mut Case| -> V2 { std::array::from_fn(|_| Q::nd(c.s.int(-6, 6), 2)) };
    let (o, a) = (g(c), g(c));
    let mut d: V2 = std::array::from_fn(|_| Q::nd(c.s.int(-4, 4), 2));
    let mut b = g(c);
    if c.s.chance(1, 3) {
        // parallel, often collinear
        let k = Q::nd(c.s.int(-4, 4), 2);
        b = addn(&a, &scalen(&d, &k));
        if c.s.bool() { d = scalen(&subn(&a, &o), &Q::nd(c.s.int(-2, 2), 2)); b = addn(&a, &scalen(&d, &k)); }
    }
    c.note(|| format!("{} ray {} + t {} against {} - {}", T::NAME, fmtv(&o), fmtv(&d), fmtv(&a), fmtv(&b)));
    let got = ray_segment_intersection_2d::<T>(&pt(&o), &Vector::<T, 2>(pt(&d)), &pt(&a), &pt(&b));
    // smallest t >= 0 with o + t d on the segment
    let want: Option<Q> = if is0n(&d) { None } else {
        let e = subn(&b, &a);
        let q = subn(&a, &o);
        let cr = |u: &V2, v: &V2| &(&u[0] * &v[1]) - &(&u[1] * &v[0]);
        let de = cr(&d, &e);
        if de.is0() {
            if !cr(&q, &d).is0() { None } else {
                let dd = dotn(&d, &d);
                let (s0, s1) = (&dotn(&q, &d) / &dd, &dotn(&subn(&b, &o), &d) / &dd);
                let (lo, hi) = (qmin(&s0, &s1), qmax(&s0, &s1));
                if hi.sgn() < 0 { None } else { Some(qmax(&lo, &Q::i(0))) }
            }
        } else {
            let (t, u) = (&cr(&q, &e) / &de, &cr(&q, &d) / &de);
            if t.sgn() >= 0 && u.sgn() >= 0 && u <= Q::i(1) { Some(t) } else { None }
        }
    };
    match (got, want) {
        (None, None) => c.label("ray2-miss"),
        (Some((t, u)), Some(w)) => {
            ensure!(near::<T>(&t, &w), "ray parameter {}, expected {w}", t.ball_center_f64());
            if a != b {
                let e = subn(&b, &a);
                let wu = &dotn(&subn(&addn(&o, &scalen(&d, &w)), &a), &e) / &dotn(&e, &e);
                ensure!(near::<T>(&u, &wu), "segment parameter {}, expected {wu}", u.ball_center_f64());
            }
            c.nontrivial = true;
            c.label("ray2-hit");
        }
        (g, w) => return Err(format!("ray gives {:?}, expected {w:?}", g.map(|(t, _)| t.ball_center_f64()))),
    }
    Ok(())
}
}

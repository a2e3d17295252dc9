//! Curves in which two meshes meet, face pair by face pair.
use super::c01::{crossings, gen_operand, place, Solid, COARSE, FINE};
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::intersection_segment::IntersectionSegment;
use std::collections::BTreeMap;

pub const SPEC: Spec = Spec {
    id: "C23",
    rule: "the surfaces meet and every segment of the curve was compared with the exact face-face intersections",
    quick: 60_000,
    thorough: 600_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

fn near(exact: bool, p: &V3, q: &V3) -> bool {
    if exact { p == q } else { (0..3).all(|k| (&p[k] - &q[k]).abs() < Q::nd(1, 1_000_000)) }
}

/// the live faces of a mesh, and its surface with one triangle per live face
fn surface<T: Num>(m: &Mesh<T, 3>) -> Result<(Vec<usize>, Solid), String> {
    let p = m.vertices.iter().map(|v| unpt(&v.position)).collect();
    Ok((live_faces(m), Solid::new(p, tris(m)?)))
}

/// what the end point says about its place on the mesh agrees with the point
fn hints<T: Num>(m: &Mesh<T, 3>, s: &IntersectionSegment<T, 3>, tri: [usize; 3]) -> R {
    let exact = T::EXACT;
    ensure!(std::ptr::eq(&s[0], &s.a) && std::ptr::eq(&s[1], &s.b), "the end points by number are others");
    for (ep, p) in [(&s.a, unpt(&s.segment.a)), (&s.b, unpt(&s.segment.b))] {
        let pos = |v: usize| unpt(&m.vertices[v].position);
        if let Some(u) = &ep.half_edge_u_hint {
            let Some([v, w]) = ep.vertex_hint else { return Err("a point on an edge does not name the edge's vertices".into()) };
            ensure!(tri.contains(&v) && tri.contains(&w) && v != w, "a point on an edge names vertices {v},{w} but the face is {tri:?}");
            ensure!(near(exact, &lerpn(&pos(v), &pos(w), &u.q()), &p), "the parameter {} on edge {v},{w} does not give the point {}", u.q(), fmtv(&p));
            let Some(he) = ep.half_edge_hint else { return Err("a point on an edge does not name a half-edge".into()) };
            let h = &m.half_edges[he];
            let (x, y) = (h.vertex, m.half_edges[h.twin].vertex);
            ensure!(!h.removed && ((x, y) == (v, w) || (x, y) == (w, v)), "the half-edge named for edge {v},{w} runs between {y},{x}");
            // both faces at the edge
            let mut want: Vec<usize> = [h.face, m.half_edges[h.twin].face].iter().flatten().copied().collect();
            let mut got: Vec<usize> = ep.faces_hint.ok_or("a point on an edge does not name the faces")?.into_iter().filter(|f| *f != usize::MAX).collect();
            want.sort();
            got.sort();
            ensure!(want == got, "a point on edge {v},{w} names faces {got:?}; the edge has {want:?}");
        } else if let Some((x, y, z)) = &ep.barycentric_hint {
            let w = [x.q(), y.q(), z.q()];
            let mut q: V3 = [Q::i(0), Q::i(0), Q::i(0)];
            for k in 0..3 {
                q = addn(&q, &scalen(&pos(tri[k]), &w[k]));
            }
            ensure!(near(exact, &q, &p), "the barycentric coordinates of {} on face {tri:?} give {}", fmtv(&p), fmtv(&q));
            ensure!(ep.faces_hint.is_some_and(|f| f[0] == s.initial_face_reference), "a point inside a face does not name the face");
        } else {
            return Err(format!("the end point {} is neither on an edge nor inside a face", fmtv(&p)));
        }
    }
    Ok(())
}

/// whether the point lies on a border edge
fn border_point(s: &Solid, p: &V3, exact: bool) -> bool {
    let uses = edge_uses(&s.t).unwrap_or_default();
    uses.keys().filter(|(v, w)| !uses.contains_key(&(*w, *v))).any(|(v, w)| {
        let (a, b) = (&s.p[*v], &s.p[*w]);
        let d = subn(b, a);
        let t = &dotn(&subn(p, a), &d) / &dotn(&d, &d);
        t.sgn() >= 0 && t <= Q::i(1) && near(exact, &addn(a, &scalen(&d, &t)), p)
    })
}

gfn! {
/// split edges and faces at random places; the surface stays, removed faces stay behind
pub fn refine(c: &mut Case, m: &mut Mesh<T, 3>) -> R {
    let mut tree = m.build_face_tree();
    let n = 1 + c.s.below(4);
    for _ in 0..n {
        let lf = live_faces(m);
        let f = *c.s.pick(&lf);
        let t = face_tri(m, f)?;
        let [x, y, z] = t.map(|v| unpt(&m.vertices[v].position));
        let mid = lerpn(&x, &y, &Q::nd(1, 2));
        if c.s.bool() {
            let he = m.half_edge_between(t[0], t[1]).ok_or("edge not found")?;
            m.split_edge(&mut tree, he, &pt::<T, 3>(&mid), true).map_err(|e| format!("split_edge: {e}"))?;
            c.note(|| format!("split edge {},{}", t[0], t[1]));
        } else {
            let p = lerpn(&mid, &z, &Q::nd(1, 2));
            m.split_face(&mut tree, f, &pt::<T, 3>(&p), true);
            c.note(|| format!("split face {t:?}"));
        }
    }
    c.label("refined");
    Ok(())
}
}

gfn! {
fn go(c: &mut Case) -> R {
    let open = c.s.chance(1, 3);
    let gen_one = |c: &mut Case| if open && c.s.chance(2, 3) { let big = c.s.bool(); gen_surface(c, big, T::EXACT) } else { gen_operand(c, T::EXACT) };
    let sa = gen_one(c);
    let mut sb = gen_one(c);
    place(c, &sa.p, &mut sb, T::EXACT);
    c.note(|| format!("{} A {} B {}", T::NAME, sa.show(), sb.show()));
    let mut ma = build_mesh!(T, 3, &sa);
    let mut mb = build_mesh!(T, 3, &sb);
    if c.s.chance(1, 4) { refine::<T>(c, &mut ma)?; }
    if c.s.chance(1, 4) { refine::<T>(c, &mut mb)?; }
    let (fa, a) = surface(&ma)?;
    let (fb, b) = surface(&mb)?;
    let Some(want) = crossings(&a, &b, if T::EXACT { &FINE } else { &COARSE }) else { c.label("not-general"); return Ok(()) };
    let closed = is_closed(&a.t) && is_closed(&b.t);
    c.label(if want.is_empty() { "apart" } else if closed { "closed" } else { "open" });
    c.nontrivial = !want.is_empty();

    // face of a, face of b -> segment
    let find: BTreeMap<(usize, usize), &[V3; 2]> = want.iter().map(|(i, j, e)| ((fa[*i], fb[*j]), e)).collect();
    for swap in [false, true] {
        let (la, lb) = if swap { let (x, y) = mb.get_mesh_intersections_3(&ma); (y, x) } else { ma.get_mesh_intersections_3(&mb) };
        ensure!(la.len() == want.len(), "{} segments on the first mesh, but {} pairs of faces meet", la.len(), want.len());
        ensure!(lb.len() == want.len(), "{} segments on the second mesh, but {} pairs of faces meet", lb.len(), want.len());
        let mut used = BTreeMap::new();
        let tri_of = |m: &Mesh<T, 3>, f: usize| -> [usize; 3] { m.face_vertices(f) };
        for (list, m, first) in [(&la, &ma, true), (&lb, &mb, false)] {
            for s in list.iter() {
                ensure!(!s.coplanar && !s.invalidated, "a proper crossing is marked as coplanar or invalid");
                let f = s.initial_face_reference;
                let (p, q) = (unpt(&s.segment.a), unpt(&s.segment.b));
                let hit: Vec<(usize, usize)> = find.iter().filter(|((x, y), e)| (if first { *x } else { *y }) == f && ((near(T::EXACT, &e[0], &p) && near(T::EXACT, &e[1], &q)) || (near(T::EXACT, &e[1], &p) && near(T::EXACT, &e[0], &q)))).map(|(k, _)| *k).collect();
                ensure!(hit.len() == 1, "segment {} - {} on face {f} of the {} mesh is where {} pairs of faces meet", fmtv(&p), fmtv(&q), if first { "first" } else { "second" }, hit.len());
                let n = used.entry((first, hit[0])).or_insert(0);
                *n += 1;
                ensure!(*n == 1, "faces {:?} are listed twice", hit[0]);
                hints(m, s, tri_of(m, f))?;
                c.checks += 1;
            }
        }
    }
    // every point of the curve joins two segments, unless it is on a border
    let mut deg: Vec<(V3, usize)> = vec![];
    let (la, _) = ma.get_mesh_intersections_3(&mb);
    for s in &la {
        for p in [unpt(&s.segment.a), unpt(&s.segment.b)] {
            match deg.iter_mut().find(|(q, _)| near(T::EXACT, q, &p)) {
                Some((_, n)) => *n += 1,
                None => deg.push((p, 1)),
            }
        }
    }
    for (p, n) in &deg {
        let end = *n == 1 && !closed && (border_point(&a, p, T::EXACT) || border_point(&b, p, T::EXACT));
        ensure!(*n == 2 || end, "{n} segments of the curve end at {}", fmtv(p));
    }
    Ok(())
}
}

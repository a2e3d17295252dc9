//! Locating a point on the surface: face, edge or vertex, from any starting face or half-edge.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::topology::FindFaceResult;
use std::collections::BTreeMap;

pub const SPEC: Spec = Spec {
    id: "C16",
    rule: "a point on the surface was located from a face that does not contain it or that no longer exists",
    quick: 150_000,
    thorough: 2_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    if c.s.chance(1, 4) { by_num!(c, flat(c)) } else { by_num!(c, surface(c)) }
}

/// weights of a point chosen on a triangle: corner, side or inside
fn gen_weights(c: &mut Case, exact: bool) -> [Q; 3] {
    let k = c.s.below(3);
    let den = if exact && c.s.bool() { c.s.int(3, 12) } else { 8 };
    let mut w = [Q::i(0), Q::i(0), Q::i(0)];
    match c.s.weighted(&[1, 2, 3]) {
        0 => w[k] = Q::i(1),
        1 => {
            let i = c.s.int(1, den - 1);
            w[k] = Q::nd(i, den);
            w[(k + 1) % 3] = Q::nd(den - i, den);
        }
        _ => {
            let i = c.s.int(1, den - 2);
            let j = c.s.int(1, den - 1 - i);
            w = [Q::nd(i, den), Q::nd(j, den), Q::nd(den - i - j, den)];
        }
    }
    w
}

fn mix<const N: usize>(w: &[Q; 3], a: &[Q; N], b: &[Q; N], d: &[Q; N]) -> [Q; N] {
    std::array::from_fn(|k| &(&(&a[k] * &w[0]) + &(&b[k] * &w[1])) + &(&d[k] * &w[2]))
}

/// barycentric weights of a point of the triangle's plane, or None when it is off the triangle
fn weights<const N: usize>(p: &[Q; N], a: &[Q; N], b: &[Q; N], d: &[Q; N]) -> Option<[Q; 3]> {
    let (u, v, w) = (subn(b, a), subn(d, a), subn(p, a));
    let (uu, uv, vv, wu, wv) = (dotn(&u, &u), dotn(&u, &v), dotn(&v, &v), dotn(&w, &u), dotn(&w, &v));
    let den = &(&uu * &vv) - &(&uv * &uv);
    let y = &(&(&vv * &wu) - &(&uv * &wv)) / &den;
    let z = &(&(&uu * &wv) - &(&uv * &wu)) / &den;
    let x = &(&Q::i(1) - &y) - &z;
    let l = [x, y, z];
    (l.iter().all(|x| x.sgn() >= 0) && mix(&l, a, b, d) == *p).then_some(l)
}

fn in_plane<const N: usize>(p: &[Q; N], a: &[Q; N], b: &[Q; N], d: &[Q; N]) -> bool {
    if N == 2 {
        return true;
    }
    let v = |x: &[Q; N]| -> V3 { std::array::from_fn(|k| &x[k] - &a[k]) };
    dotn(&cross3(&v(b), &v(d)), &v(p)).is0()
}

gfn! {
fn near(got: &T, want: &Q) -> bool {
    if T::EXACT { got.q() == *want } else { (got.ball_center_f64() - want.to_f64()).abs() <= 1e-7 }
}
}

macro_rules! extra {
    (3, $T:ident, $c:ident, $m:ident, $ps:ident, $p:ident, $tree:ident, $f:ident, $w:ident) => {
        let hits = $m.faces_containing_point_aabb(&mut $tree, &pt::<$T, 3>(&$p));
        for g in &hits {
            let t = face_tri(&$m, *g)?;
            ensure!(weights(&$p, &$ps[t[0]], &$ps[t[1]], &$ps[t[2]]).is_some_and(|w| w.iter().all(|x| !x.is0())), "face {t:?} does not contain {} inside", fmtv(&$p));
        }
        if $w.iter().all(|x| !x.is0()) {
            ensure!(hits.contains(&$f), "face {} contains {} inside but is not found", $f, fmtv(&$p));
            $c.label("tree-hit");
        }
    };
    (2, $($x:tt)*) => {};
}

macro_rules! body {
    ($name:ident, $gen:expr, $N:tt) => {
        gfn! {
        fn $name(c: &mut Case) -> R {
            let s: Soup<$N> = $gen(c, T::EXACT);
            let mut m = build_mesh!(T, $N, &s);
            let mut ps = s.p.clone();
            // a history of splits; the faces and edges it consumes stay valid places to start from
            let mut tree = m.build_face_tree();
            let mut old_edges: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
            for f in live_faces(&m) {
                for h in m.face_half_edges(f) { old_edges.insert(h, (m.source(h), m.target(h))); }
            }
            let steps = c.s.below(5);
            for step in 0..steps {
                if !T::EXACT && step >= 2 { break; }
                let fs = live_faces(&m);
                let f = *c.s.pick(&fs);
                let t = face_tri(&m, f)?;
                let w = gen_weights(c, T::EXACT);
                let pos = mix(&w, &ps[t[0]], &ps[t[1]], &ps[t[2]]);
                if !T::EXACT && !super::geogen::short(&pos) { continue; }
                c.note(|| format!("split {t:?} at {}", fmtv(&pos)));
                m.split_face(&mut tree, f, &pt::<T, $N>(&pos), true).map_err(|e| format!("split refused: {e}"))?;
                if m.vertices.len() > ps.len() { ps.push(pos); }
                for f in live_faces(&m) {
                    for h in m.face_half_edges(f) { old_edges.insert(h, (m.source(h), m.target(h))); }
                }
            }
            let fs = live_faces(&m);
            for _ in 0..1 + c.s.below(4) {
                let f = *c.s.pick(&fs);
                let t = face_tri(&m, f)?;
                let w = gen_weights(c, T::EXACT);
                let p = mix(&w, &ps[t[0]], &ps[t[1]], &ps[t[2]]);
                let tp = pt::<T, $N>(&p);
                c.note(|| format!("{} point {} on face {t:?}", T::NAME, fmtv(&p)));

                // from anywhere, including faces that are gone
                let start = c.s.below(m.faces.len());
                let gone = m.faces[start].removed;
                let (r, kind) = match m.find_valid_face(start, &tp) {
                    FindFaceResult::Inside { f: g, bary } => ((g, None, None, Some(bary)), 0),
                    FindFaceResult::OnEdge { f: g, he, u } => ((g, Some((he, u)), None, None), 1),
                    FindFaceResult::OnVertex { f: g, v } => ((g, None, Some(v), None), 2),
                };
                check::<T, _>(c, &m, &ps, &p, r, kind, &|f| m.face_vertices(f), "search")?;
                if gone { c.label("from-gone"); }
                if gone || start != f { c.nontrivial = true; }

                // directly on the face
                let (r, kind) = match m.location_on_face(f, &tp) {
                    FindFaceResult::Inside { f: g, bary } => ((g, None, None, Some(bary)), 0),
                    FindFaceResult::OnEdge { f: g, he, u } => ((g, Some((he, u)), None, None), 1),
                    FindFaceResult::OnVertex { f: g, v } => ((g, None, Some(v), None), 2),
                };
                check::<T, _>(c, &m, &ps, &p, r, kind, &|f| m.face_vertices(f), "location")?;

                // weights on some face, which may or may not contain the point
                let g = *c.s.pick(&fs);
                let tg = face_tri(&m, g)?;
                let want = weights(&p, &ps[tg[0]], &ps[tg[1]], &ps[tg[2]]);
                let got = m.barycentric_coords_on_face(g, &tp);
                let vs = m.face_vertices(g);
                match (&got, &want) {
                    (None, None) => {}
                    // off the face's plane the question has no agreed answer
                    (Some(_), None) if !in_plane(&p, &ps[tg[0]], &ps[tg[1]], &ps[tg[2]]) => {}
                    (Some(b), Some(w)) => {
                        for (x, v) in [&b.0, &b.1, &b.2].into_iter().zip(vs) {
                            let k = tg.iter().position(|i| *i == v).ok_or("face vertices disagree")?;
                            ensure!(near::<T>(x, &w[k]), "weight of vertex {v} on face {tg:?} is {}, expected {}", x.ball_center_f64(), w[k]);
                        }
                    }
                    _ => return Err(format!("weights on face {tg:?}: {:?}, expected {want:?}", got.is_some())),
                }
                let on = m.point_is_on_some_half_edge(g, &tp);
                let border = (0..3).any(|k| on_segment(&p, &ps[tg[k]], &ps[tg[(k + 1) % 3]]));
                ensure!(on.is_some() == border, "point {} on the border of {tg:?}: {}, expected {border}", fmtv(&p), on.is_some());
                if let Some((h, u)) = on {
                    ensure!(m.half_edges[h].face == Some(g), "half-edge {h} is not on face {g}");
                    edge_at::<T, _>(&m, &ps, &p, h, &u)?;
                }

                // from an edge that contains the point, whole or split since
                if let Some((h, (a, b))) = old_edges.iter().find(|(h, (a, b))| (**h + start) % 2 == 0 && on_segment(&p, &ps[*a], &ps[*b])) {
                    let k = m.find_valid_half_edge(*h, &tp);
                    ensure!(k < m.half_edges.len() && !m.half_edges[k].removed, "from half-edge {a}->{b}: half-edge {k} is not live");
                    let (x, y) = (m.source(k), m.target(k));
                    ensure!(on_segment(&p, &ps[x], &ps[y]), "from half-edge {a}->{b}: point {} is not on {x}->{y}", fmtv(&p));
                    c.label(if m.half_edges[*h].removed { "edge-gone" } else { "edge-live" });
                }

                // through the tree
                extra!($N, T, c, m, ps, p, tree, f, w);
            }
            Ok(())
        }
        }
    };
}

fn edge_at<T: Num, const M: usize>(m: &Mesh<T, M>, ps: &[[Q; M]], p: &[Q; M], h: usize, u: &T) -> R {
    let (a, b) = (m.half_edges[m.half_edges[h].prev].vertex, m.half_edges[h].vertex);
    ensure!(on_segment(p, &ps[a], &ps[b]), "half-edge {a}->{b} does not contain {}", fmtv(p));
    let e = subn(&ps[b], &ps[a]);
    let want = &dotn(&subn(p, &ps[a]), &e) / &dotn(&e, &e);
    let got = u.ball_center_f64();
    ensure!(if T::EXACT { u.q() == want } else { (got - want.to_f64()).abs() <= 1e-7 }, "parameter on {a}->{b} is {got}, expected {want}");
    Ok(())
}

type Found<T> = (usize, Option<(usize, T)>, Option<usize>, Option<(T, T, T)>);

fn check<T: Num, const M: usize>(c: &mut Case, m: &Mesh<T, M>, ps: &[[Q; M]], p: &[Q; M], r: Found<T>, kind: usize, corners: &dyn Fn(usize) -> [usize; 3], what: &str) -> R {
    let (f, he, v, bary) = r;
    ensure!(f < m.faces.len() && !m.faces[f].removed, "{what}: face {f} is not live");
    let t = face_tri(m, f)?;
    let w = weights(p, &ps[t[0]], &ps[t[1]], &ps[t[2]]).ok_or_else(|| format!("{what}: face {t:?} does not contain {}", fmtv(p)))?;
    let zeros = w.iter().filter(|x| x.is0()).count();
    ensure!(zeros == kind, "{what}: found as {}, but on face {t:?} the weights are {w:?}", ["inside", "on an edge", "at a vertex"][kind]);
    c.label(["inside", "on-edge", "at-vertex"][kind]);
    if let Some((h, u)) = he {
        ensure!(m.half_edges[h].face == Some(f), "{what}: half-edge {h} is not on face {f}");
        edge_at(m, ps, p, h, &u)?;
    }
    if let Some(v) = v {
        ensure!(v < ps.len() && ps[v] == *p && t.contains(&v), "{what}: vertex {v} of {t:?} is not at {}", fmtv(p));
    }
    if let Some(b) = bary {
        for (x, v) in [b.0, b.1, b.2].iter().zip(corners(f)) {
            let k = t.iter().position(|i| *i == v).ok_or("face vertices disagree")?;
            ensure!(if T::EXACT { x.q() == w[k] } else { (x.ball_center_f64() - w[k].to_f64()).abs() <= 1e-7 }, "{what}: weight of vertex {v} is {}, expected {}", x.ball_center_f64(), w[k]);
        }
    }
    Ok(())
}

fn any_surface(c: &mut Case, exact: bool) -> Soup<3> {
    gen_surface(c, true, exact)
}

body!(surface, any_surface, 3);
body!(flat, gen_planar, 2);

//! Half-edge edits: adding and removing triangles in any order keeps a consistent surface
//! that holds exactly the triangles the history says, and neighbourhood queries agree with it.
use super::meshgen::*;
use crate::case::*;
use crate::q::*;
use crate::ensure;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::scalar::Scalar;
use std::collections::{BTreeMap, BTreeSet};

type M3 = Mesh<CgarF64, 3>;

pub const SPEC: Spec = Spec {
    id: "C09",
    rule: "a history of at least 6 accepted edits containing both an addition and a removal",
    quick: 400_000,
    thorough: 4_000_000,
    fresh_thread: false,
    run,
};

/// orientation in which the documented rule accepts a triangle, or None
fn accept(live: &BTreeMap<usize, [usize; 3]>, t: [usize; 3]) -> Option<[usize; 3]> {
    let used: BTreeSet<(usize, usize)> = live.values().flat_map(|t| dir_edges(*t)).collect();
    for cand in [t, flip(t)] {
        if dir_edges(cand).iter().all(|e| !used.contains(e)) {
            return Some(cand);
        }
    }
    None
}

/// neighbourhood queries against the triangle list; call only on meshes with linked borders
pub fn queries<T: Scalar>(m: &Mesh<T, 3>, c: &mut Case) -> R
where
    cgar::geometry::point::Point<T, 3>: cgar::geometry::point::PointOps<T, 3, Vector = cgar::geometry::vector::Vector<T, 3>>,
    cgar::geometry::vector::Vector<T, 3>: cgar::geometry::vector::VectorOps<T, 3>,
    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
        + std::ops::Mul<&'a T, Output = T>
        + std::ops::Add<&'a T, Output = T>
        + std::ops::Div<&'a T, Output = T>
        + std::ops::Neg<Output = T>,
{
    m.validate_connectivity();
    m.validate_half_edges();
    let fs = live_faces(m);
    let mut by: BTreeMap<usize, [usize; 3]> = BTreeMap::new();
    for &f in &fs {
        by.insert(f, face_tri(m, f)?);
    }
    let ts: Vec<[usize; 3]> = by.values().copied().collect();
    let use_e: BTreeMap<(usize, usize), usize> = by.iter().flat_map(|(f, t)| dir_edges(*t).map(|e| (e, *f))).collect();
    let fan = fans(&ts);
    for (f, t) in &by {
        let fv = m.face_vertices(*f);
        ensure!(rot(fv) == rot(*t), "face_vertices({f}) = {fv:?}, cycle is {t:?}");
        let hs = m.face_half_edges(*f);
        ensure!(hs.len() == 3, "face_half_edges({f}) has {} entries", hs.len());
        ensure!(m.get_face_half_edges_iterative(*f).is_some_and(|v| v[..] == hs[..]), "get_face_half_edges_iterative({f}) = {:?}, not {hs:?}", m.get_face_half_edges_iterative(*f));
        for h in &hs {
            let (s, d) = (m.source(*h), m.target(*h));
            // also for the half-edge on the other side, which may be a border
            for (h, s, d) in [(*h, s, d), (m.half_edges[*h].twin, d, s)] {
                let (ps, pd) = (&m.vertices[s].position, &m.vertices[d].position);
                let g = m.segment_from_half_edge(h);
                ensure!(g.a == *ps && g.b == *pd, "segment_from_half_edge({h}) is not {s}->{d}");
                for (p, u) in [(ps, T::zero()), (pd, T::one())] {
                    let x = m.point_on_half_edge(h, p);
                    ensure!(x.as_ref().is_some_and(|x| (x - &u).is_zero()), "point_on_half_edge({h}) at an end of {s}->{d} is {x:?}");
                    let x = m.point_on_half_edge_with_tolerance(h, p, &T::from_num_den(1, 8));
                    ensure!(x.as_ref().is_some_and(|x| (x - &u).is_zero()), "point_on_half_edge_with_tolerance({h}) at an end of {s}->{d} is {x:?}");
                }
            }
            ensure!(use_e.get(&(s, d)) == Some(f), "half-edge {h} of face {f} runs {s}->{d}");
        }
        let want: BTreeSet<usize> = dir_edges(*t).iter().filter_map(|(a, b)| use_e.get(&(*b, *a)).copied()).collect();
        let got: BTreeSet<usize> = m.adjacent_faces(*f).collect();
        ensure!(got == want, "adjacent_faces({f}) = {got:?}, want {want:?}");
        let af = m.faces_around_face(*f);
        let got: BTreeSet<usize> = af.iter().copied().filter(|x| *x != usize::MAX).collect();
        ensure!(got == want, "faces_around_face({f}) = {af:?}, want {want:?}");
        for g in fs.iter().take(12) {
            let w = dir_edges(*t).iter().any(|(a, b)| use_e.get(&(*b, *a)) == Some(g));
            ensure!(m.are_faces_adjacent(*f, *g) == w, "are_faces_adjacent({f},{g}) != {w}");
        }
        if t.iter().all(|v| fan[v] == 1) {
            let g = m.face_from_vertices(t[0], t[1], t[2]);
            ensure!(g != usize::MAX && by.get(&g).map(|x| norm(*x)) == Some(norm(*t)), "face_from_vertices{t:?} = {g}");
        }
        c.checks += 1;
    }
    let adj = m.build_face_adjacency_graph();
    for (f, t) in &by {
        let want: BTreeSet<usize> = dir_edges(*t).iter().filter_map(|(a, b)| use_e.get(&(*b, *a)).copied()).collect();
        let got: BTreeSet<usize> = adj.get(f).map(|v| v.iter().copied().collect()).unwrap_or_default();
        ensure!(got == want, "face adjacency graph of {f}: {got:?}, want {want:?}");
    }
    let verts: Vec<usize> = fan.keys().copied().collect();
    let mut rim = BTreeSet::new();
    for &v in &verts {
        let want_n = neighbours(&ts, v);
        let want_f: BTreeSet<usize> = by.iter().filter(|(_, t)| t.contains(&v)).map(|(f, _)| *f).collect();
        let border = want_n.iter().any(|w| use_e.contains_key(&(v, *w)) != use_e.contains_key(&(*w, v)));
        for &w in &verts {
            let conn = want_n.contains(&w);
            ensure!(m.are_vertices_connected(v, w) == conn, "are_vertices_connected({v},{w}) != {conn}");
            let h = m.vertices_connection(v, w);
            ensure!((h != usize::MAX) == conn, "vertices_connection({v},{w}) = {h}");
            let hb = m.half_edge_between(v, w);
            ensure!(hb.is_some() == conn, "half_edge_between({v},{w}) = {hb:?}");
            if let Some(h) = hb {
                ensure!(m.source(h) == v && m.target(h) == w, "half_edge_between({v},{w}) runs elsewhere");
                let pr = m.edge_half_edges(v, w);
                ensure!(pr == Some((h, m.half_edges[h].twin)), "edge_half_edges({v},{w}) = {pr:?}");
                for u in [0.0, 0.25, 1.0] {
                    let got = (m.canonicalize_u_for_edge(h, (v, w), u), m.canonicalize_u_for_edge(h, (w, v), u));
                    ensure!(got == (u, 1.0 - u), "parameter {u} on {v}-{w} becomes {got:?}");
                }
                ensure!(m.canonical_edge_indices(h) == Some((v.min(w), v.max(w))), "canonical_edge_indices({h})");
            }
        }
        if fan[&v] != 1 {
            c.label("bow-tie-vertex");
            continue;
        }
        if border { rim.insert(v); }
        let out = m.outgoing_half_edges(v);
        let got: BTreeSet<usize> = out.iter().map(|h| m.target(*h)).collect();
        ensure!(got == want_n && out.len() == want_n.len(), "outgoing_half_edges({v}) reach {got:?}, neighbours {want_n:?}");
        ensure!(out.iter().all(|h| m.source(*h) == v), "outgoing_half_edges({v}) not outgoing");
        // turning around the vertex meets all of them
        let mut turn = vec![out[0]];
        while turn.len() <= out.len() && (turn.len() == 1 || turn[turn.len() - 1] != out[0]) {
            turn.push(m.rot_ccw_around_vertex(turn[turn.len() - 1]));
        }
        turn.pop();
        let (x, y): (BTreeSet<usize>, BTreeSet<usize>) = (turn.iter().copied().collect(), out.iter().copied().collect());
        ensure!(x == y && turn.len() == out.len(), "turning around {v} meets {turn:?}, outgoing are {out:?}");
        let ring = m.one_ring_neighbors(v);
        let got: BTreeSet<usize> = ring.iter().copied().collect();
        ensure!(got == want_n && ring.len() == want_n.len(), "one_ring_neighbors({v}) = {ring:?}, neighbours {want_n:?}");
        let got: BTreeSet<usize> = m.incident_faces(v).into_iter().collect();
        ensure!(got == want_f, "incident_faces({v}) = {got:?}, want {want_f:?}");
        let fav = m.faces_around_vertex(v);
        let got: BTreeSet<usize> = fav.iter().copied().collect();
        ensure!(got == want_f && fav.len() == want_f.len(), "faces_around_vertex({v}) = {fav:?}, want {want_f:?}");
        ensure!(m.is_boundary_vertex(v) == border, "is_boundary_vertex({v}) != {border}");
        let vr = m.vertex_ring_ccw(v);
        ensure!(vr.is_border == border, "vertex ring of {v} border flag");
        let got: BTreeSet<usize> = vr.neighbors_ccw.iter().copied().collect();
        ensure!(got == want_n && vr.neighbors_ccw.len() == want_n.len(), "vertex ring of {v} = {:?}", vr.neighbors_ccw);
        // counter-clockwise: the face of spoke i is (v, n_i, n_{i+1})
        let k = vr.neighbors_ccw.len();
        for i in 0..k {
            if let Some(f) = vr.faces_ccw[i] {
                let want = rot([v, vr.neighbors_ccw[i], vr.neighbors_ccw[(i + 1) % k]]);
                ensure!(by.get(&f).map(|t| rot(*t)) == Some(want), "vertex ring of {v} is not counter-clockwise at {i}");
            }
        }
        for f in &fs {
            ensure!(m.vertex_touches_face(v, *f) == want_f.contains(f), "vertex_touches_face({v},{f})");
        }
        c.checks += 1;
    }
    let got: BTreeSet<usize> = m.boundary_vertices().into_iter().filter(|v| fan.get(v) == Some(&1)).collect();
    ensure!(got == rim, "boundary_vertices {got:?}, want {rim:?}");
    for (&(a, b), f) in use_e.iter() {
        if fan[&a] != 1 || fan[&b] != 1 {
            continue;
        }
        let Some(pr) = m.ring_pair(a, b) else { return Err(format!("ring_pair({a},{b}) is None")) };
        let third = |t: [usize; 3]| t.into_iter().find(|v| *v != a && *v != b);
        let other = use_e.get(&(b, a));
        ensure!(pr.opposite_a == third(by[f]), "ring_pair({a},{b}).opposite_a = {:?}", pr.opposite_a);
        ensure!(pr.opposite_b == other.and_then(|g| third(by[g])), "ring_pair({a},{b}).opposite_b = {:?}", pr.opposite_b);
        ensure!(pr.is_border_edge == other.is_none(), "ring_pair({a},{b}).is_border_edge");
        let (na, nb) = (neighbours(&ts, a), neighbours(&ts, b));
        let want: BTreeSet<usize> = na.intersection(&nb).copied().filter(|x| *x != a && *x != b).collect();
        let got: BTreeSet<usize> = pr.common_neighbors.iter().copied().collect();
        ensure!(got == want, "ring_pair({a},{b}) common neighbours {got:?}, want {want:?}");
        let sides: BTreeSet<usize> = [pr.opposite_a, pr.opposite_b].into_iter().flatten().collect();
        for (a, b) in [(a, b), (b, a)] {
            ensure!(m.collapse_link_condition_triangle(a, b) == (want == sides), "link condition of {a}-{b}, want {}", want == sides);
        }
        c.checks += 1;
    }
    Ok(())
}
fn norm(t: [usize; 3]) -> [usize; 3] {
    let mut t = t;
    t.sort();
    t
}

fn check(m: &M3, live: &BTreeMap<usize, [usize; 3]>, what: &str) -> R {
    let ts = audit(m, Borders::Linked).map_err(|e| format!("after {what}: {e}"))?;
    let want: Vec<_> = live.values().copied().collect();
    expect_tris(&ts, &want).map_err(|e| format!("after {what}: {e}"))?;
    // handles stay valid: each face id still denotes the triangle it was created for
    for (f, t) in live {
        ensure!(*f < m.faces.len() && !m.faces[*f].removed, "after {what}: face {f} vanished");
        let g = face_tri(m, *f)?;
        ensure!(rot(g) == rot(*t), "after {what}: face {f} became {g:?}, was {t:?}");
    }
    Ok(())
}

fn run(c: &mut Case) -> R {
    let mut m: M3 = Mesh::new();
    let mut live: BTreeMap<usize, [usize; 3]> = BTreeMap::new();
    // triangles to draw from: a real surface, or arbitrary triples over a small vertex set
    let pool: Vec<[usize; 3]>;
    let nv;
    let abstract_ = c.s.chance(1, 3);
    if abstract_ {
        c.label("arbitrary-triples");
        nv = 4 + c.s.below(5);
        pool = vec![];
    } else {
        let s = if c.s.chance(1, 3) {
            let p = gen_planar(c, false);
            lift(c, &p, true)
        } else {
            gen_closed(c, true, false)
        };
        nv = s.p.len();
        pool = s.t;
    }
    for i in 0..nv {
        let p = [Q::i(i as i64), Q::i((i * i) as i64), Q::i((i * i * i) as i64)];
        m.add_vertex(crate::num::pt(&p));
    }
    c.note(|| format!("nv={nv} pool={pool:?}"));
    // start from a partly built surface most of the time
    if !abstract_ && c.s.chance(2, 3) {
        let k = c.s.below(pool.len() + 1);
        if c.s.bool() {
            let ts: Vec<(usize, usize, usize)> = pool[..k].iter().map(|t| (t[0], t[1], t[2])).collect();
            let ids = m.add_triangles_deferred(&ts);
            ensure!(ids.len() == k, "batch of {k} compatible triangles accepted only {}", ids.len());
            for (i, f) in ids.iter().enumerate() {
                live.insert(*f, pool[i]);
            }
        } else {
            for t in &pool[..k] {
                let f = m.add_triangle(t[0], t[1], t[2]);
                ensure!(f != usize::MAX, "compatible triangle {t:?} refused");
                live.insert(f, *t);
            }
        }
        c.note(|| format!("start={k}"));
        check(&m, &live, "initial construction")?;
    }
    let most = if c.s.chance(1, 16) { 60 } else { 16 };
    let steps = 4 + c.s.below(most);
    let (mut adds, mut rems) = (0, 0);
    let draw_tri = |c: &mut Case, live: &BTreeMap<usize, [usize; 3]>| -> [usize; 3] {
        if !pool.is_empty() && c.s.chance(5, 6) {
            let t = pool[c.s.below(pool.len())];
            return if c.s.chance(1, 6) { flip(t) } else { t };
        }
        if !live.is_empty() && c.s.chance(1, 2) {
            // over an existing edge
            let k = c.s.below(live.len());
            let t = *live.values().nth(k).unwrap();
            let e = dir_edges(t)[c.s.below(3)];
            let mut w = c.s.below(nv);
            while w == e.0 || w == e.1 {
                w = (w + 1) % nv;
            }
            return if c.s.chance(3, 4) { [e.1, e.0, w] } else { [e.0, e.1, w] };
        }
        let pm = c.s.perm(nv);
        [pm[0], pm[1], pm[2]]
    };
    for step in 0..steps {
        match c.s.weighted(&[6, 4, 2, 2, 2, 1]) {
            0 => {
                let t = draw_tri(c, &live);
                let want = accept(&live, t);
                c.note(|| format!("add{t:?}"));
                let f = m.add_triangle(t[0], t[1], t[2]);
                match want {
                    Some(o) => {
                        ensure!(f != usize::MAX, "triangle {t:?} fits the surface but was refused");
                        ensure!(live.insert(f, o).is_none(), "face id {f} reused while alive");
                        adds += 1;
                    }
                    None => {
                        ensure!(f == usize::MAX, "triangle {t:?} accepted although both orientations are taken");
                        c.label("refused");
                    }
                }
            }
            1 if !live.is_empty() => {
                let k = c.s.below(live.len());
                let f = *live.keys().nth(k).unwrap();
                c.note(|| format!("remove{:?}", live[&f]));
                m.remove_triangle(f);
                live.remove(&f);
                rems += 1;
            }
            2 => {
                let n = 1 + c.s.below(6);
                let ts: Vec<[usize; 3]> = (0..n).map(|_| draw_tri(c, &live)).collect();
                c.note(|| format!("add-batch{ts:?}"));
                let before = live.clone();
                let mut want = vec![];
                for t in &ts {
                    if let Some(o) = accept(&live, *t) {
                        live.insert(usize::MAX - want.len(), o);
                        want.push(o);
                    }
                }
                live = before;
                let arg: Vec<(usize, usize, usize)> = ts.iter().map(|t| (t[0], t[1], t[2])).collect();
                let ids = m.add_triangles_deferred(&arg);
                ensure!(ids.len() == want.len(), "batch {ts:?}: {} accepted, {} fit the surface", ids.len(), want.len());
                for (f, o) in ids.iter().zip(&want) {
                    ensure!(live.insert(*f, *o).is_none(), "face id {f} reused while alive");
                }
                adds += want.len();
                c.label("batch-add");
            }
            3 if !live.is_empty() => {
                let n = 1 + c.s.below(live.len().min(6));
                let pm = c.s.perm(live.len());
                let keys: Vec<usize> = live.keys().copied().collect();
                let fs: Vec<usize> = pm[..n].iter().map(|i| keys[*i]).collect();
                c.note(|| format!("remove-batch{:?}", fs.iter().map(|f| live[f]).collect::<Vec<_>>()));
                let (starts, vs) = m.remove_triangles_deferred(&fs);
                m.weld_border_components_from(&starts);
                m.fix_vertices_outgoing_for(&vs);
                for f in &fs {
                    live.remove(f);
                }
                rems += n;
                c.label("batch-remove");
            }
            4 if !live.is_empty() => {
                // replace faces: each removed triangle refilled, possibly fanned around a new vertex
                let n = 1 + c.s.below(live.len().min(4));
                let pm = c.s.perm(live.len());
                let keys: Vec<usize> = live.keys().copied().collect();
                let fs: Vec<usize> = pm[..n].iter().map(|i| keys[*i]).collect();
                let mut add: Vec<[usize; 3]> = vec![];
                for f in &fs {
                    let t = live[f];
                    if c.s.bool() {
                        let w = m.add_vertex(crate::num::pt(&[Q::i(-1), Q::i(m.vertices.len() as i64), Q::i(-7)]));
                        for (a, b) in dir_edges(t) {
                            add.push([a, b, w]);
                        }
                    } else {
                        add.push(t);
                    }
                }
                c.note(|| format!("refill{:?}->{:?}", fs.iter().map(|f| live[f]).collect::<Vec<_>>(), add));
                let single = c.s.chance(1, 4);
                if single {
                    for f in &fs {
                        m.remove_triangle(*f);
                        live.remove(f);
                    }
                    for t in &add {
                        let f = m.add_triangle(t[0], t[1], t[2]);
                        ensure!(f != usize::MAX, "refill triangle {t:?} refused");
                        live.insert(f, *t);
                    }
                } else {
                    let (_, vs) = m.remove_triangles_deferred(&fs);
                    for f in &fs {
                        live.remove(f);
                    }
                    let arg: Vec<(usize, usize, usize)> = add.iter().map(|t| (t[0], t[1], t[2])).collect();
                    let ids = m.add_triangles_deferred(&arg);
                    ensure!(ids.len() == add.len(), "refill accepted {} of {}", ids.len(), add.len());
                    for (f, t) in ids.iter().zip(&add) {
                        live.insert(*f, *t);
                    }
                    let _ = vs;
                }
                adds += add.len();
                rems += n;
                c.label("refill");
            }
            5 => {
                c.note(|| "relink-borders".into());
                m.build_boundary_loops();
            }
            _ => continue,
        }
        check(&m, &live, &format!("step {step}"))?;
    }
    if live.len() <= 40 && !live.is_empty() && c.s.chance(1, 2) {
        queries(&m, c)?;
        c.label("queries");
    }
    c.nontrivial = adds + rems >= 6 && adds > 0 && rems > 0;
    c.checks += steps as u64;
    Ok(())
}

//! Welding and clean-up: coincident vertices merge, the surface stays, lookups find what is there.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::Mesh;
use std::collections::{BTreeMap, BTreeSet};

pub const SPEC: Spec = Spec {
    id: "C20",
    rule: "vertices were merged, dropped or looked up again after an edit, and faces survived",
    quick: 150_000,
    thorough: 1_200_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    match c.s.weighted(&[4, 3, 3]) {
        0 => by_num!(c, weld(c)),
        1 => by_num!(c, cleanup(c)),
        _ => by_num!(c, lookup(c)),
    }
}

type Geo<const N: usize> = Vec<[[Q; N]; 3]>;

/// geometric triangles up to rotation, sorted
pub fn geo<const N: usize>(ps: &[[Q; N]], ts: &[[usize; 3]]) -> Geo<N> {
    let mut v: Geo<N> = ts
        .iter()
        .map(|t| {
            let k = (0..3).min_by(|a, b| ps[t[*a]].cmp(&ps[t[*b]])).unwrap();
            [0, 1, 2].map(|i| ps[t[(k + i) % 3]].clone())
        })
        .collect();
    v.sort();
    v
}

gfn! {
fn dressed(c: &mut Case, p: &[Q; 3], plain: bool) -> Point<T, 3> {
    let v: Vec<T> = p.iter().map(|q| if plain { T::of(q) } else { super::c08::dress::<T>(c, q) }).collect();
    let [x, y, z]: [T; 3] = v.try_into().unwrap();
    Point { coords: [x, y, z] }
}
}

fn positions<T: Num>(m: &Mesh<T, 3>) -> Vec<[Q; 3]> {
    m.vertices.iter().map(|v| unpt(&v.position)).collect()
}

gfn! {
fn weld(c: &mut Case) -> R {
    let s = gen_surface(c, false, T::EXACT);
    let plain = c.s.bool();
    let mut m: Mesh<T, 3> = Mesh::new();
    // corners use a private copy of their vertex, or share one of the earlier copies
    let mut copies: Vec<Vec<usize>> = vec![vec![]; s.p.len()];
    let style = c.s.below(3); // 0: every corner its own copy, 1: some shared, 2: mostly shared
    let mut ps: Vec<[Q; 3]> = vec![];
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut want = vec![];
    let mut skipped = 0;
    for t in &s.t {
        let mut idx = [0usize; 3];
        for k in 0..3 {
            let v = t[k];
            let share = match style { 0 => false, 1 => c.s.chance(1, 3), _ => c.s.chance(4, 5) };
            idx[k] = if share && !copies[v].is_empty() {
                copies[v][c.s.below(copies[v].len())]
            } else {
                let p = dressed::<T>(c, &s.p[v], plain);
                let i = m.add_vertex(p);
                ps.push(s.p[v].clone());
                copies[v].push(i);
                i
            };
        }
        // keep the unwelded mesh itself legal: no directed edge twice, no pinched vertex
        let mut cand: Vec<[usize; 3]> = want.clone();
        cand.push(idx);
        let es = dir_edges(idx);
        if es.iter().any(|e| used.contains(e)) || !vertex_manifold(&cand) {
            // fall back to three fresh copies
            for k in 0..3 {
                let p = dressed::<T>(c, &s.p[t[k]], plain);
                idx[k] = m.add_vertex(p);
                ps.push(s.p[t[k]].clone());
                copies[t[k]].push(idx[k]);
            }
            skipped += 1;
        }
        for e in dir_edges(idx) { used.insert(e); }
        want.push(idx);
        let f = m.add_triangle(idx[0], idx[1], idx[2]);
        ensure!(f != usize::MAX, "triangle {idx:?} refused");
    }
    let _ = skipped;
    // isolated extra vertices, some coincident with used ones
    for _ in 0..c.s.below(3) {
        let k = c.s.below(s.p.len());
        let p = if c.s.bool() { s.p[k].clone() } else { addn(&s.p[k], &[Q::i(100), Q::i(0), Q::i(0)]) };
        m.add_vertex(dressed::<T>(c, &p, plain));
        ps.push(p);
    }
    // some faces may be gone already
    let mut live: Vec<[usize; 3]> = want.clone();
    if c.s.chance(1, 3) {
        let keep: Vec<usize> = (0..want.len()).filter(|_| !c.s.chance(1, 6)).collect();
        let rest: Vec<[usize; 3]> = keep.iter().map(|i| want[*i]).collect();
        // the welded remainder has to stay a manifold surface
        let back: BTreeMap<&[Q; 3], usize> = s.p.iter().enumerate().map(|(i, p)| (p, i)).collect();
        let welded: Vec<[usize; 3]> = rest.iter().map(|t| t.map(|v| back[&ps[v]])).collect();
        if vertex_manifold(&welded) && vertex_manifold(&rest) {
            for f in 0..want.len() { if !keep.contains(&f) { m.remove_triangle(f); } }
            live = rest;
            c.label("with-removed-faces");
        }
    }
    let distinct: BTreeSet<[Q; 3]> = ps.iter().cloned().collect();
    c.note(|| format!("{} copies of {} positions, {} triangles", ps.len(), distinct.len(), live.len()));
    let gone = m.remove_duplicate_vertices();
    ensure!(gone == ps.len() - distinct.len(), "{gone} vertices reported merged, {} copies were superfluous", ps.len() - distinct.len());
    let np = positions(&m);
    ensure!(np.len() == distinct.len(), "{} vertices remain, expected {}", np.len(), distinct.len());
    let nset: BTreeSet<[Q; 3]> = np.iter().cloned().collect();
    ensure!(nset == distinct, "the set of vertex positions changed");
    let got = audit(&m, Borders::Linked)?;
    ensure!(geo(&np, &got) == geo(&ps, &live), "the triangles changed: {} before, {} after", live.len(), got.len());
    if gone > 0 {
        c.label("merged");
        c.nontrivial = true;
    }
    // a second pass has nothing to do
    ensure!(m.remove_duplicate_vertices() == 0, "a second welding pass merged again");
    let again = audit(&m, Borders::Linked)?;
    ensure!(geo(&positions(&m), &again) == geo(&ps, &live), "a second welding pass changed triangles");
    // every position is found, none is inserted twice
    for _ in 0..3 {
        let k = c.s.below(np.len());
        let (i, old) = m.get_or_insert_vertex(&dressed::<T>(c, &np[k], plain));
        ensure!(old && i == k, "vertex {k} looked up after welding: index {i}, existing {old}");
    }
    Ok(())
}
}

gfn! {
/// remove_unused_vertices and remove_invalidated_faces in any order after removals
fn cleanup(c: &mut Case) -> R {
    let s = gen_surface(c, false, T::EXACT);
    let mut m: Mesh<T, 3> = Mesh::new();
    let mut ps = vec![];
    let mut at = vec![];
    for p in &s.p {
        if c.s.chance(1, 5) {
            let junk = addn(p, &[Q::i(0), Q::i(1000 * (1 + ps.len() as i64)), Q::i(0)]);
            m.add_vertex(pt::<T, 3>(&junk));
            ps.push(junk);
        }
        at.push(ps.len());
        m.add_vertex(pt::<T, 3>(p));
        ps.push(p.clone());
    }
    let all: Vec<[usize; 3]> = s.t.iter().map(|t| t.map(|v| at[v])).collect();
    for t in &all { m.add_triangle(t[0], t[1], t[2]); }
    let mut live = all.clone();
    let tries = c.s.below(4);
    let mut removed = 0;
    for _ in 0..tries {
        if live.len() < 2 { break; }
        let k = c.s.below(live.len());
        let mut rest = live.clone();
        let t = rest.remove(k);
        if !vertex_manifold(&rest) { continue; }
        let f = live_faces(&m).into_iter().find(|f| face_tri(&m, *f).map(|x| rot(x) == rot(t)).unwrap_or(false)).ok_or("face not found")?;
        m.remove_triangle(f);
        live = rest;
        removed += 1;
    }
    let want = geo(&ps, &live);
    for _ in 0..1 + c.s.below(3) {
        let before = positions(&m);
        let cur = audit(&m, Borders::Linked)?;
        match c.s.below(3) {
            0 => {
                c.note(|| "remove_unused_vertices".into());
                m.remove_unused_vertices();
                let used: BTreeSet<usize> = cur.iter().flatten().copied().collect();
                let expect: Vec<[Q; 3]> = used.iter().map(|v| before[*v].clone()).collect();
                ensure!(positions(&m) == expect, "vertices after dropping unused ones: {} kept, expected {}", m.vertices.len(), expect.len());
                if used.len() < before.len() && !live.is_empty() { c.nontrivial = true; c.label("unused-dropped"); }
            }
            1 => {
                c.note(|| "remove_invalidated_faces".into());
                let order: Vec<[usize; 3]> = live_faces(&m).into_iter().map(|f| face_tri(&m, f).map(rot)).collect::<Result<_, _>>()?;
                let dead = m.faces.len() - order.len();
                m.remove_invalidated_faces();
                ensure!(m.faces.len() == order.len() && m.faces.iter().all(|f| !f.removed), "{} faces kept, expected {}", m.faces.len(), order.len());
                for (i, t) in order.iter().enumerate() {
                    ensure!(rot(face_tri(&m, i)?) == *t, "face {i} changed from {t:?}");
                }
                ensure!(positions(&m) == before, "vertices changed");
                if dead > 0 && !live.is_empty() { c.nontrivial = true; c.label("dead-faces-dropped"); }
            }
            _ => {
                c.note(|| "remove_duplicate_vertices".into());
                ensure!(m.remove_duplicate_vertices() == 0, "vertices merged although all positions differ");
                ensure!(positions(&m) == before, "vertices changed");
            }
        }
        let now = audit(&m, Borders::Linked)?;
        ensure!(geo(&positions(&m), &now) == want, "the triangles changed: {} before, {} after", want.len(), now.len());
    }
    let _ = removed;
    Ok(())
}
}

gfn! {
/// get_or_insert_vertex over histories of insertions and of edits that move or retire vertices
fn lookup(c: &mut Case) -> R {
    let s = gen_surface(c, false, T::EXACT);
    let plain = c.s.chance(2, 3);
    let mut m: Mesh<T, 3> = Mesh::new();
    for p in &s.p { m.add_vertex(dressed::<T>(c, p, plain)); }
    for t in &s.t { m.add_triangle(t[0], t[1], t[2]); }
    let merge = Q::nd(1, 1_000_000);
    let mut known: Vec<[Q; 3]> = s.p.clone();
    for step in 0..2 + c.s.below(8) {
        let op = c.s.weighted(&[6, 2, 1, 1]);
        if op == 1 && T::EXACT {
            // an edge collapse retires one vertex and moves another
            let cur = tris(&m)?;
            if cur.is_empty() { continue; }
            let t = cur[c.s.below(cur.len())];
            let k = c.s.below(3);
            if m.collapse_edge(t[k], t[(k + 1) % 3]).is_ok() {
                c.label("collapsed");
                c.note(|| format!("collapse {} {}", t[k], t[(k + 1) % 3]));
                known.push(unpt(&m.vertices[t[k]].position));
            }
            continue;
        }
        if op == 2 && T::EXACT {
            let v = c.s.below(m.vertices.len());
            if m.vertices[v].half_edge.is_some() && m.smooth_tangential(v, T::of(&Q::nd(1, 2)), &T::of(&Q::i(1_000_000))) {
                c.label("smoothed");
                c.note(|| format!("smooth {v}"));
                known.push(unpt(&m.vertices[v].position));
            }
            continue;
        }
        let base = known[c.s.below(known.len())].clone();
        let q: [Q; 3] = if op == 3 {
            addn(&base, &[Q::nd(c.s.int(-3, 3), 8), Q::nd(c.s.int(-3, 3), 8), Q::nd(c.s.int(-3, 3), 8)])
        } else if c.s.chance(1, 6) {
            // near the merge distance: which of the two answers is given is not specified
            let mut r = base.clone();
            let k = c.s.below(3);
            r[k] = &r[k] + &Q::nd(c.s.int(-30, 30), 10_000_000);
            r
        } else { base };
        if !T::EXACT && !super::geogen::short(&q) { continue; }
        let n = m.vertices.len();
        let live: Vec<(usize, [Q; 3])> = m.vertices.iter().enumerate().filter(|(_, v)| !v.removed).map(|(i, v)| (i, unpt(&v.position))).collect();
        let (i, old) = m.get_or_insert_vertex(&dressed::<T>(c, &q, plain));
        c.note(|| format!("step {step}: lookup {} -> {i} existing {old}", fmtv(&q)));
        if old {
            ensure!(i < n && !m.vertices[i].removed, "lookup returned vertex {i}, which is not a live vertex");
            let d = subn(&unpt(&m.vertices[i].position), &q);
            let slack = &merge * &Q::nd(1001, 1000);
            ensure!(d.iter().all(|x| x.abs() <= slack), "lookup of {} returned vertex {i} at {}", fmtv(&q), fmtv(&unpt(&m.vertices[i].position)));
            c.label("found");
            c.nontrivial = true;
        } else {
            ensure!(i == n && m.vertices.len() == n + 1, "inserted as {i}, expected {n}");
            ensure!(unpt(&m.vertices[i].position) == q, "inserted at a different position");
            if let Some((k, _)) = live.iter().find(|(_, p)| *p == q) {
                return Err(format!("a second vertex was inserted at {}, the position of live vertex {k}", fmtv(&q)));
            }
            known.push(q);
            c.label("inserted");
        }
    }
    Ok(())
}
}

//! Splitting edges and faces: same surface, valid structure, requested vertex, tree stays complete.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, build_mesh, ensure, gfn};
use cgar::mesh::basic_types::SplitResultKind;
use std::collections::{BTreeMap, BTreeSet};

pub const SPEC: Spec = Spec {
    id: "C10",
    rule: "at least two splits changed the mesh, one of them inside an already split region or on a border",
    quick: 150_000,
    thorough: 1_000_000,
    fresh_thread: false,
    run,
};

/// parameter strictly inside (0,1)
pub fn gen_u(c: &mut Case, exact: bool) -> Q {
    if exact {
        let d = 2 + c.s.below(9) as i64;
        Q::nd(1 + c.s.below(d as usize - 1) as i64, d)
    } else {
        Q::nd(1 + c.s.below(3) as i64, 4)
    }
}

macro_rules! history {
    ($name:ident, $N:expr) => {
        gfn! {
            fn $name(c: &mut Case, s: &Soup<$N>) -> R {
                let mut m = build_mesh!(T, $N, s);
                let mut ps: Vec<[Q; $N]> = s.p.clone();
                let mut live: BTreeMap<usize, [usize; 3]> = BTreeMap::new();
                for f in live_faces(&m) {
                    live.insert(f, face_tri(&m, f)?);
                }
                expect_tris(&audit(&m, Borders::Linked)?, &s.t)?;
                let mut tree = m.build_face_tree();
                let most = if c.s.chance(1, 12) { 30 } else { 7 };
                let steps = 1 + c.s.below(most);
                let mut changed = 0;
                let mut deep = false;
                let mut fresh: BTreeSet<usize> = BTreeSet::new();
                for step in 0..steps {
                    if !T::EXACT && step >= 3 {
                        break; // stay on a short dyadic grid
                    }
                    let ids: Vec<usize> = live.keys().copied().collect();
                    // prefer recently created faces so that histories nest
                    let f = if !fresh.is_empty() && c.s.chance(1, 2) {
                        let v: Vec<usize> = fresh.iter().copied().collect();
                        v[c.s.below(v.len())]
                    } else {
                        ids[c.s.below(ids.len())]
                    };
                    let t = live[&f];
                    let uses: BTreeMap<(usize, usize), usize> = live.iter().flat_map(|(f, t)| dir_edges(*t).map(|e| (e, *f))).collect();
                    // where: inside a face, on an edge via split_edge, on an edge via split_face, at a vertex
                    let mode = c.s.weighted(&[4, 4, 2, 1]);
                    let k = c.s.below(3);
                    let (a, b, w) = (t[k], t[(k + 1) % 3], t[(k + 2) % 3]);
                    let u = gen_u(c, T::EXACT);
                    let pos = match mode {
                        0 => {
                            let v = gen_u(c, T::EXACT);
                            lerpn(&lerpn(&ps[a], &ps[b], &u), &ps[w], &v)
                        }
                        3 => ps[a].clone(),
                        _ => lerpn(&ps[a], &ps[b], &u),
                    };
                    if !T::EXACT && !super::geogen::short(&pos) {
                        continue;
                    }
                    let res = if mode == 1 {
                        let (x, y) = if c.s.chance(1, 3) { (b, a) } else { (a, b) };
                        let he = m.half_edge_between(x, y).ok_or("edge of a live face not found")?;
                        c.note(|| format!("split_edge({x},{y}) at {}", fmtv(&pos)));
                        m.split_edge(&mut tree, he, &pt::<T, $N>(&pos), true)
                    } else {
                        c.note(|| format!("split_face{t:?} at {}", fmtv(&pos)));
                        m.split_face(&mut tree, f, &pt::<T, $N>(&pos), true)
                    };
                    let res = res.map_err(|e| format!("split refused: {e}"))?;
                    if mode == 3 {
                        ensure!(res.kind == SplitResultKind::NoSplit && res.vertex == a, "splitting at vertex {a} gave {:?} vertex {}", res.kind, res.vertex);
                        c.label("at-vertex");
                    } else {
                        // expected triangles
                        let n = ps.len();
                        let nw = res.vertex;
                        ensure!(nw == n && nw < m.vertices.len(), "split vertex {nw}, expected the new vertex {n}");
                        ps.push(pos.clone());
                        let mut want: Vec<[usize; 3]> = vec![];
                        let mut gone: Vec<usize> = vec![];
                        if mode == 0 {
                            ensure!(res.kind == SplitResultKind::SplitFace, "interior point: {:?}", res.kind);
                            gone.push(f);
                            for (x, y) in dir_edges(t) {
                                want.push([x, y, nw]);
                            }
                            c.label("inside");
                        } else {
                            ensure!(res.kind == SplitResultKind::SplitEdge, "point on an edge: {:?}", res.kind);
                            for (x, y) in [(a, b), (b, a)] {
                                if let Some(g) = uses.get(&(x, y)) {
                                    gone.push(*g);
                                    let z = live[g].into_iter().find(|v| *v != a && *v != b).unwrap();
                                    want.push([x, nw, z]);
                                    want.push([nw, y, z]);
                                } else {
                                    c.label("border-edge");
                                    deep = true;
                                }
                            }
                            c.label("on-edge");
                        }
                        if gone.iter().any(|g| fresh.contains(g)) {
                            deep = true;
                        }
                        for g in &gone {
                            ensure!(m.faces[*g].removed, "split face {g} still alive");
                            live.remove(g);
                            fresh.remove(g);
                        }
                        let ids: Vec<usize> = res.new_faces.iter().copied().filter(|x| *x != usize::MAX).collect();
                        ensure!(ids.len() == want.len(), "{} new faces reported, expected {}", ids.len(), want.len());
                        let mut got = vec![];
                        for g in ids {
                            ensure!(g < m.faces.len() && !m.faces[g].removed, "reported new face {g} is not alive");
                            let tr = face_tri(&m, g)?;
                            got.push(tr);
                            ensure!(live.insert(g, tr).is_none(), "new face id {g} was in use");
                            fresh.insert(g);
                        }
                        expect_tris(&got, &want).map_err(|e| format!("new faces: {e}"))?;
                        changed += 1;
                    }
                    let ts = audit(&m, Borders::Linked).map_err(|e| format!("step {step}: {e}"))?;
                    let want: Vec<[usize; 3]> = live.values().copied().collect();
                    expect_tris(&ts, &want).map_err(|e| format!("step {step}: {e}"))?;
                    ensure!(m.vertices.len() == ps.len(), "{} vertices, expected {}", m.vertices.len(), ps.len());
                    let nw = ps.len() - 1;
                    let got = unpt(&m.vertices[nw].position);
                    ensure!(got == ps[nw], "vertex {nw} at {}, expected {}", fmtv(&got), fmtv(&ps[nw]));
                }
                // the tree answers for exactly the live faces
                for (f, t) in &live {
                    let mut out: Vec<&usize> = vec![];
                    let bx = m.face_aabb(*f);
                    tree.query_valid(&bx, &mut out);
                    let got: BTreeSet<usize> = out.into_iter().copied().collect();
                    ensure!(got.contains(f), "box query around live face {f} {t:?} does not report it");
                    for g in &got {
                        ensure!(live.contains_key(g), "box query reports dead face {g}");
                    }
                    c.checks += 1;
                }
                // every original vertex is where it was
                for (i, p) in ps.iter().enumerate() {
                    ensure!(unpt(&m.vertices[i].position) == *p, "vertex {i} moved");
                }
                c.nontrivial = changed >= 2 && deep;
                Ok(())
            }
        }
    };
}
history!(h2, 2);
history!(h3, 3);

fn run(c: &mut Case) -> R {
    let rat = c.s.bool();
    if c.s.chance(2, 5) {
        let s = gen_planar(c, rat);
        c.note(|| s.show());
        if rat { by_exact2(c, &s) } else { by_num!(c, h2(c, &s)) }
    } else {
        let s = gen_surface(c, true, rat);
        c.note(|| s.show());
        if rat { by_exact3(c, &s) } else { by_num!(c, h3(c, &s)) }
    }
}
fn by_exact2(c: &mut Case, s: &Soup<2>) -> R {
    if c.s.bool() { h2::<cgar::numeric::cgar_rational::CgarRational>(c, s) } else { h2::<cgar::numeric::lazy_exact::LazyExact>(c, s) }
}
fn by_exact3(c: &mut Case, s: &Soup<3>) -> R {
    if c.s.bool() { h3::<cgar::numeric::cgar_rational::CgarRational>(c, s) } else { h3::<cgar::numeric::lazy_exact::LazyExact>(c, s) }
}

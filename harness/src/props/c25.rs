//! Booleans of solids that touch: common planes, edges and vertices.
use super::c01::{close_vol, pick_op, solid, tidy, Solid};
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh_processing::boolean::BooleanOp;
use std::collections::{BTreeMap, BTreeSet};

pub const SPEC: Spec = Spec {
    id: "C25",
    rule: "two or more solids of grid cells were combined and every cell was compared with the set operation",
    quick: 60_000,
    thorough: 500_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, contact(c))
}

/// Unit tetrahedra of the grid: a cube's corner and the order in which the axes are walked to the far corner.
/// Scaled copies of them and boxes are unions of unit ones.
type Cells = BTreeSet<([i64; 3], usize)>;
const ORDER: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];

fn cell_corners(o: &[i64; 3], k: usize, scale: i64) -> [[i64; 3]; 4] {
    let mut p = *o;
    let mut out = [p; 4];
    for (i, ax) in ORDER[k].iter().enumerate() {
        p[*ax] += scale;
        out[i + 1] = p;
    }
    out
}
/// the faces of a tetrahedron seen from outside
fn cell_faces(o: &[i64; 3], k: usize, scale: i64) -> [[[i64; 3]; 3]; 4] {
    let [a, b, c, d] = cell_corners(o, k, scale);
    if k < 3 { [[a, c, b], [a, b, d], [b, c, d], [c, a, d]] } else { [[a, b, c], [b, a, d], [c, b, d], [a, c, d]] }
}
/// barycentre, in quarters
fn cell_mid(o: &[i64; 3], k: usize) -> [i64; 3] {
    let p = cell_corners(o, k, 1);
    std::array::from_fn(|i| p.iter().map(|q| q[i]).sum())
}

fn soup_of(faces: impl IntoIterator<Item = [[i64; 3]; 3]>) -> Soup<3> {
    let mut s: Soup<3> = Soup::default();
    let mut id = BTreeMap::new();
    for f in faces {
        s.t.push(f.map(|p| {
            *id.entry(p).or_insert_with(|| {
                s.p.push(p.map(Q::i));
                s.p.len() - 1
            })
        }));
    }
    s
}
fn cells_skin(set: &Cells) -> Soup<3> {
    let mut faces: BTreeMap<[[i64; 3]; 3], [[i64; 3]; 3]> = BTreeMap::new();
    for (o, k) in set {
        for f in cell_faces(o, *k, 1) {
            let mut key = f;
            key.sort();
            if faces.remove(&key).is_none() {
                faces.insert(key, f);
            }
        }
    }
    soup_of(faces.into_values())
}
fn manifold(s: &Soup<3>) -> bool {
    edge_uses(&s.t).is_some() && vertex_manifold(&s.t)
}

/// a solid made of grid cells, and its surface with large or small faces
fn gen_cells(c: &mut Case) -> (Cells, Soup<3>) {
    let lo: [i64; 3] = std::array::from_fn(|_| c.s.int(0, 2));
    let mut set = Cells::new();
    let coarse = match c.s.weighted(&[3, 2, 2, 2]) {
        0 => {
            let hi: [i64; 3] = std::array::from_fn(|k| lo[k] + c.s.int(1, 3));
            for x in lo[0]..hi[0] {
                for y in lo[1]..hi[1] {
                    for z in lo[2]..hi[2] {
                        set.extend((0..6).map(|k| ([x, y, z], k)));
                    }
                }
            }
            c.label("box");
            let d = std::array::from_fn(|_| c.s.bool());
            cuboid(&lo.map(Q::i), &hi.map(Q::i), &d)
        }
        1 => {
            // one large tetrahedron: the unit ones whose barycentre lies in it
            let n = c.s.int(1, 3);
            let k = c.s.below(6);
            let big = cell_corners(&lo, k, 4 * n).map(|p| std::array::from_fn(|i| Q::i(p[i] + 3 * lo[i])));
            let flip = if k < 3 { 1 } else { -1 };
            for x in 0..n {
                for y in 0..n {
                    for z in 0..n {
                        let o = [lo[0] + x, lo[1] + y, lo[2] + z];
                        for j in 0..6 {
                            let m = cell_mid(&o, j).map(Q::i);
                            let [a, b, d, e] = &big;
                            let inside = [(a, d, b), (a, b, e), (b, d, e), (d, a, e)].iter().all(|(u, v, w)| orient3(u, v, w, &m).sgn() * flip < 0)
                                || [(a, d, b), (a, b, e), (b, d, e), (d, a, e)].iter().all(|(u, v, w)| orient3(u, v, w, &m).sgn() * flip > 0);
                            if inside {
                                set.insert((o, j));
                            }
                        }
                    }
                }
            }
            c.label("tetra");
            soup_of(cell_faces(&lo, k, n))
        }
        w => {
            // grow from one cell, through faces
            let n = 1 + c.s.below(if w == 2 { 10 } else { 40 });
            set.insert((lo, c.s.below(6)));
            for _ in 1..n {
                let v: Vec<([i64; 3], usize)> = set.iter().copied().collect();
                let (o, k) = v[c.s.below(v.len())];
                let mut f = cell_faces(&o, k, 1)[c.s.below(4)];
                f.sort();
                let mut o2: [i64; 3] = o;
                for x in o2.iter_mut() {
                    *x += c.s.int(-1, 1) * c.s.below(2) as i64;
                }
                let next = (0..6).map(|j| (o2, j)).find(|(p, j)| (*p, *j) != (o, k) && cell_faces(p, *j, 1).iter().any(|g| { let mut g = *g; g.sort(); g == f }));
                if let Some(x) = next {
                    let had = !set.insert(x);
                    if !had && !manifold(&cells_skin(&set)) {
                        set.remove(&x);
                    }
                }
            }
            c.label("grown");
            cells_skin(&set)
        }
    };
    let fine = cells_skin(&set);
    assert!(vol6(&fine.p, &fine.t) == Q::i(set.len() as i64) && vol6(&coarse.p, &coarse.t) == vol6(&fine.p, &fine.t), "cells");
    let s = if c.s.chance(1, 4) { fine } else { coarse };
    (set, s)
}

gfn! {
/// solids made of grid cells: faces lie in common planes, edges and vertices on each other
fn contact(c: &mut Case) -> R {
    let (mut have, first) = gen_cells(c);
    let mut steps = Vec::new();
    let mut shapes = vec![first];
    // rounded points no longer lie on common planes, so doubles go one step only
    for _ in 0..if T::EXACT { 1 + c.s.weighted(&[3, 2, 1]) } else { 1 } {
        let op = pick_op(c);
        let (cells, s) = gen_cells(c);
        let want: Cells = match op {
            BooleanOp::Union => have.union(&cells).copied().collect(),
            BooleanOp::Intersection => have.intersection(&cells).copied().collect(),
            BooleanOp::Difference => have.difference(&cells).copied().collect(),
        };
        // touching along an edge or in a vertex only: no surface to speak of
        if !manifold(&cells_skin(&want)) { c.label("not-manifold"); break }
        steps.push((op, have, cells, want.clone()));
        shapes.push(s);
        have = want;
    }
    if steps.is_empty() { return Ok(()) }
    // one map for all of them, and for the barycentres
    let all: Vec<([i64; 3], usize)> = steps.iter().flat_map(|s| s.1.union(&s.2)).copied().collect::<Cells>().into_iter().collect();
    let mut points: Soup<3> = Soup::default();
    for s in &shapes { points.append(s); }
    points.p.extend(all.iter().map(|(o, k)| cell_mid(o, *k).map(|x| Q::nd(x, 4))));
    points.p.extend([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]].map(|p: [i64; 3]| p.map(Q::i)));
    if c.s.bool() { affine(c, &mut points, T::EXACT); }
    let mut p = points.p.into_iter();
    for s in &mut shapes { for v in &mut s.p { *v = p.next().unwrap(); } }
    let mids: Vec<[Q; 3]> = p.by_ref().take(all.len()).collect();
    let e: Vec<[Q; 3]> = p.collect();
    let unit = orient3(&e[0], &e[1], &e[2], &e[3]).abs();
    let mixed = c.s.bool();
    for s in &mut shapes {
        if mixed { s.shuffle(c); }
    }
    c.note(|| format!("{} {} {}", T::NAME, shapes[0].show(), steps.iter().zip(&shapes[1..]).map(|(s, t)| format!("{:?} {}", s.0, t.show())).collect::<Vec<_>>().join(" ")));
    c.label("contact");
    if steps.len() > 1 { c.label("contact-chained"); }
    c.nontrivial = true;
    let is = |m: &Solid, cells: &Cells, what: &str| -> R {
        ensure!(is_closed(&m.t), "{what}: not closed");
        ensure!(vertex_manifold(&m.t), "{what}: not a manifold");
        let v = &Q::i(cells.len() as i64) * &unit;
        ensure!(close_vol(T::EXACT, &m.vol6(), &v, &v), "{what}: volume is {}, not {v}", m.vol6());
        for (cell, p) in all.iter().zip(&mids) {
            let w = m.winding(p);
            ensure!(w == Some(cells.contains(cell) as i32), "{what}: cell {cell:?} has winding number {w:?}");
        }
        Ok(())
    };
    let mut m = build_mesh!(T, 3, &shapes[0]);
    for ((op, before, cells, want), s) in steps.iter().zip(&shapes[1..]) {
        let mut b = build_mesh!(T, 3, s);
        let r = m.corefine_and_boolean(&mut b, match op { BooleanOp::Union => BooleanOp::Union, BooleanOp::Intersection => BooleanOp::Intersection, _ => BooleanOp::Difference });
        let res = solid(&r)?;
        tidy(&r, &res.t)?;
        is(&res, want, &format!("{op:?} of solids in contact"))?;
        is(&solid(&m)?, before, &format!("{op:?} of solids in contact, first operand afterwards"))?;
        is(&solid(&b)?, cells, &format!("{op:?} of solids in contact, second operand afterwards"))?;
        c.checks += 3 * (all.len() as u64 + 3);
        m = r;
    }
    Ok(())
}
}

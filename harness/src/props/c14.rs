//! Constrained triangulation of planar straight-line graphs.
use super::c13::{check_tiling, gen_points, hull, P2};
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::operations::triangulation::delaunay::{triangles_inside_for_job, Delaunay};
use std::collections::BTreeSet;

pub const SPEC: Spec = Spec {
    id: "C14",
    rule: "a constraint piece that the unconstrained triangulation does not contain was inserted",
    quick: 100_000,
    thorough: 1_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, cdt(c))
}

/// the segments share no point interior to both (touching and overlapping are fine)
fn compatible(p: &P2, q: &P2, a: &P2, b: &P2) -> bool {
    let (o1, o2) = (orient2(p, q, a).sgn(), orient2(p, q, b).sgn());
    let (o3, o4) = (orient2(a, b, p).sgn(), orient2(a, b, q).sgn());
    !(o1 * o2 < 0 && o3 * o4 < 0)
}

/// the points on segment a-b, in order along it
fn chain(ps: &[P2], a: usize, b: usize) -> Vec<usize> {
    let dir = subn(&ps[b], &ps[a]);
    let mut v: Vec<(Q, usize)> = (0..ps.len())
        .filter(|i| *i == a || *i == b || on_segment(&ps[*i], &ps[a], &ps[b]))
        .map(|i| (dotn(&subn(&ps[i], &ps[a]), &dir), i))
        .collect();
    v.sort();
    v.into_iter().map(|(_, i)| i).collect()
}

/// a triangle with points inside it and on its sides, in coordinates where it is a half unit square
fn gen_face(c: &mut Case) -> Vec<P2> {
    c.label("face");
    let den = 1 << (3 + c.s.below(6));
    let mut v = vec![[den, 0], [0, den], [0, 0]];
    for _ in 0..c.s.below(20) {
        let (a, b) = (c.s.int(0, den), c.s.int(0, den));
        let p = match c.s.below(6) {
            0 => [a, 0],
            1 => [0, a],
            2 => [a, den - a],
            // very close to a side
            3 => [a.min(den - 1), 1],
            _ if a + b <= den => [a, b],
            _ => [den - a, den - b],
        };
        v.push(p);
    }
    if c.s.chance(1, 3) {
        c.label("points-outside");
        for _ in 0..1 + c.s.below(4) { v.push([c.s.int(-den, 2 * den), c.s.int(-den, 2 * den)]); }
    }
    v.into_iter().map(|p| p.map(|x| Q::nd(x, den))).collect()
}

gfn! {
fn cdt(c: &mut Case) -> R {
    // distinct points: a segment between copies of one point has no meaning
    let mut ps: Vec<P2> = Vec::new();
    let face = c.s.chance(1, 3);
    for p in if face { gen_face(c) } else { gen_points(c, T::EXACT, 22) } {
        if !ps.contains(&p) { ps.push(p); }
    }
    let n = ps.len();
    let mut cons: Vec<[usize; 2]> = Vec::new();
    if face { cons.extend([[0, 1], [1, 2], [2, 0]]); }
    let mut fake: Vec<[usize; 2]> = Vec::new();
    if n >= 2 {
        let tries = 1 + c.s.below(3 * n);
        for _ in 0..tries {
            let (a, b) = (c.s.below(n), c.s.below(n));
            if a == b {
                fake.push([a, a]);
                continue;
            }
            // crossing another constraint where no point was given is not a valid input
            if cons.iter().all(|k| compatible(&ps[a], &ps[b], &ps[k[0]], &ps[k[1]])) {
                cons.push([a, b]);
            }
        }
        if c.s.chance(1, 8) { fake.push([0, n]); fake.push([n + 3, 1]); }
    }
    let lib: Vec<Point<T, 2>> = ps.iter().map(|p| pt(p)).collect();
    c.note(|| format!("{} points {} constraints {cons:?}", T::NAME, ps.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" ")));
    // constraints that name no segment must be ignored
    let mut given = cons.clone();
    for f in fake { let at = c.s.below(given.len() + 1); given.insert(at, f); }
    let m = Mesh::<T, 3>::new();
    let job = FaceJobUV { face_id: 0, verts_global: (0..n).collect(), points_uv: lib.clone(), segments: given.clone() };
    let d = if c.s.bool() {
        c.label("batch");
        Delaunay::build_batch_with_constraints_bowyer_watson(std::slice::from_ref(&job), &m).pop().ok_or("no result for the job")?
    } else {
        Delaunay::build_with_constraints_bowyer_watson(&lib, &given, &m, &job)
    };
    ensure!(d.points == lib, "the points changed");
    let ts: Vec<[usize; 3]> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
    if hull(&ps).len() < 3 {
        ensure!(ts.is_empty(), "triangles {ts:?} for points on one line");
        return Ok(());
    }
    check_tiling(&ps, &ts)?;
    let edges: BTreeSet<(usize, usize)> = ts.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).flat_map(|(a, b)| [(a, b), (b, a)]).collect();
    for k in &cons {
        let ch = chain(&ps, k[0], k[1]);
        for w in ch.windows(2) {
            ensure!(edges.contains(&(w[0], w[1])), "piece ({}, {}) of constraint {k:?} is not an edge", w[0], w[1]);
            // was it forced, or there anyway?
            if !delaunay_edge(&ps, w[0], w[1]) { c.nontrivial = true; c.label("forced"); }
        }
        if ch.len() > 2 { c.label("through-points"); }
    }
    if face {
        let inside = triangles_inside_for_job(&lib, &d.triangles, &given);
        for (i, t) in ts.iter().enumerate() {
            // the sides are constraints, so a triangle is inside when its corner sum is
            let third = Q::nd(1, 3);
            let m = scalen(&addn(&addn(&ps[t[0]], &ps[t[1]]), &ps[t[2]]), &third);
            let want = in_tri2(&m, &ps[0], &ps[1], &ps[2]) != 0;
            ensure!(inside.contains(&i) == want, "triangle {t:?} reported inside the face: {}", !want);
        }
    }
    if cons.is_empty() { c.label("no-constraint"); }
    Ok(())
}
}

/// some circle through a and b has no point inside
fn delaunay_edge(ps: &[P2], a: usize, b: usize) -> bool {
    // with centre m + t*n, a point on the left needs t <= s and one on the right t >= s
    let (pa, pb) = (&ps[a], &ps[b]);
    let d = subn(pb, pa);
    let (mut lo, mut hi): (Option<Q>, Option<Q>) = (None, None);
    for (i, p) in ps.iter().enumerate() {
        if i == a || i == b {
            continue;
        }
        let w = subn(p, pa);
        let side = &(&d[0] * &w[1]) - &(&d[1] * &w[0]);
        let f = &dotn(&w, &w) - &dotn(&w, &d); // outside iff f >= 2 t side  (t scaled by |d|^2 normal)
        match side.sgn() {
            0 => {
                if f.sgn() < 0 {
                    return false;
                }
            }
            1 => {
                let s = &f / &side;
                hi = Some(hi.map_or(s.clone(), |h| qmin(&h, &s)));
            }
            _ => {
                let s = &f / &side;
                lo = Some(lo.map_or(s.clone(), |l| qmax(&l, &s)));
            }
        }
    }
    match (lo, hi) {
        (Some(l), Some(h)) => l <= h,
        _ => true,
    }
}

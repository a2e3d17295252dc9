//! Unconstrained Delaunay triangulation of planar point sets.
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::batching::FaceJobUV;
use cgar::operations::triangulation::delaunay::Delaunay;
use std::collections::BTreeMap;

pub const SPEC: Spec = Spec {
    id: "C13",
    rule: "at least five distinct points that are not all on one line were triangulated",
    quick: 150_000,
    thorough: 1_500_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, dt(c))
}

pub type P2 = [Q; 2];

/// Grid-based planar points; the grid keeps every determinant either zero or far above the
/// tolerance of the predicates.
pub fn gen_points(c: &mut Case, exact: bool, max: usize) -> Vec<P2> {
    let n = c.s.weighted(&[1, 12]);
    let n = if n == 0 {
        c.s.below(4)
    } else if c.s.chance(1, 40) {
        // some far beyond the size of any face
        if c.s.chance(1, 40) { c.label("many"); 100 + c.s.below(250) } else { 20 + c.s.below(60) }
    } else {
        3 + c.s.below(max - 2)
    };
    let den = match c.s.below(if exact { 4 } else { 2 }) { 0 => 1, 1 => 8, 2 => 3, _ => 7 };
    let style = c.s.weighted(&[4, 3, 2, 2, 2, 2, 2]);
    c.label(["small-grid", "wide", "strip", "circle", "collinear-mostly", "huge", "cluster"][style]);
    let mut raw: Vec<[i64; 2]> = Vec::new();
    for i in 0..n {
        let p = match style {
            0 => [c.s.int(0, 4), c.s.int(0, 4)],
            1 => [c.s.int(-60, 60), c.s.int(-60, 60)],
            // long and nearly flat: hull triangles with huge circumcircles
            2 => [c.s.int(-200, 200), c.s.int(0, 1 + (i as i64 % 2))],
            // points of the circle of radius 65 (and its centre)
            3 => {
                let q = [[65, 0], [63, 16], [60, 25], [56, 33], [52, 39], [39, 52], [33, 56], [25, 60], [16, 63], [0, 65], [0, 0]];
                let k: [i64; 2] = *c.s.pick(&q);
                let (a, b) = (c.s.bool(), c.s.bool());
                [if a { -k[0] } else { k[0] }, if b { -k[1] } else { k[1] }]
            }
            4 => {
                let x = c.s.int(-20, 20);
                if c.s.chance(1, 5) { [x, c.s.int(-20, 20)] } else { [x, 2 * x] }
            }
            5 => [c.s.int(-2000, 2000), c.s.int(-2000, 2000) / if c.s.bool() { 1 } else { 1000 }],
            _ => {
                let k = c.s.below(3) as i64 - 1;
                [k * 50 + c.s.int(-1, 1), k * k * 40 + c.s.int(-1, 1)]
            }
        };
        raw.push(p);
    }
    // wide point sets stay on the integer grid: finer grids would come near the tolerance
    let den = if style == 5 || style == 2 && den != 1 && !exact { 1 } else { den };
    let off: [i64; 2] = match c.s.weighted(&[5, 2, 2]) {
        0 => [0, 0],
        1 => [c.s.int(-40, 40), c.s.int(-40, 40)],
        _ => {
            c.label("far-away");
            [c.s.int(-1_000_000, 1_000_000), c.s.int(-1_000_000, 1_000_000)]
        }
    };
    raw.iter().map(|p| std::array::from_fn(|k| &Q::nd(p[k], den) + &Q::i(off[k]))).collect()
}

/// Points of the unit square at very different distances from each other. Orientations are still well above
/// the tolerance of the predicate.
fn gen_fine(c: &mut Case) -> Vec<P2> {
    c.label("fine");
    let at = [c.s.int(0, 8192), c.s.int(0, 8192)];
    let n = 3 + c.s.below(16);
    let mut ps: Vec<[i64; 2]> = vec![];
    for _ in 0..n {
        let mut p: [i64; 2] = std::array::from_fn(|k| match c.s.below(5) {
            0 => 0,
            1 => 8192,
            2 => c.s.int(0, 6),
            3 => (at[k] + c.s.int(-3, 3)).clamp(0, 8192),
            _ => c.s.int(0, 8192),
        });
        if ps.len() >= 2 && c.s.chance(1, 3) {
            // halfway between two others
            let (a, b) = (*c.s.pick(&ps), *c.s.pick(&ps));
            if (0..2).all(|k| (a[k] + b[k]) % 2 == 0) { p = std::array::from_fn(|k| (a[k] + b[k]) / 2); }
        }
        ps.push(p);
    }
    ps.iter().map(|p| std::array::from_fn(|k| Q::nd(p[k], 8192))).collect()
}

/// convex hull, counter-clockwise, collinear boundary points left out
pub fn hull(ps: &[P2]) -> Vec<P2> {
    let mut v: Vec<P2> = ps.to_vec();
    v.sort();
    v.dedup();
    let half = |it: &mut dyn Iterator<Item = &P2>| {
        let mut h: Vec<P2> = Vec::new();
        for p in it {
            while h.len() >= 2 && orient2(&h[h.len() - 2], &h[h.len() - 1], p).sgn() <= 0 {
                h.pop();
            }
            h.push(p.clone());
        }
        h
    };
    let mut a = half(&mut v.iter());
    let mut b = half(&mut v.iter().rev());
    a.pop();
    b.pop();
    a.extend(b);
    a
}

pub fn area2(poly: &[P2]) -> Q {
    let mut s = Q::i(0);
    for i in 0..poly.len() {
        let (p, q) = (&poly[i], &poly[(i + 1) % poly.len()]);
        s = &s + &(&(&p[0] * &q[1]) - &(&p[1] * &q[0]));
    }
    s
}

/// The triangles tile the convex hull of the points and use every point.
pub fn check_tiling(ps: &[P2], ts: &[[usize; 3]]) -> R {
    let mut dir: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut used = vec![false; ps.len()];
    let mut sum = Q::i(0);
    for (i, t) in ts.iter().enumerate() {
        ensure!(t.iter().all(|v| *v < ps.len()), "triangle {t:?} uses a point that was not given");
        let o = orient2(&ps[t[0]], &ps[t[1]], &ps[t[2]]);
        ensure!(o.sgn() > 0, "triangle {t:?} is not counter-clockwise (orientation {o})");
        sum = &sum + &o;
        for k in 0..3 {
            used[t[k]] = true;
            let e = (t[k], t[(k + 1) % 3]);
            ensure!(dir.insert(e, i).is_none(), "edge {e:?} is used twice in the same direction");
        }
    }
    let h = hull(ps);
    for (a, b) in dir.keys() {
        if !dir.contains_key(&(*b, *a)) {
            // an edge with one triangle must run along the hull
            ensure!(h.iter().all(|q| orient2(&ps[*a], &ps[*b], q).sgn() >= 0), "edge ({a}, {b}) has one triangle but is not on the hull");
        }
    }
    let want = area2(&h);
    ensure!(sum == want, "triangles cover twice the area {sum}, the hull has {want}");
    for (i, p) in ps.iter().enumerate() {
        ensure!(used[i] || (0..ps.len()).any(|j| used[j] && ps[j] == *p), "point {i} is in no triangle");
    }
    Ok(())
}

gfn! {
fn dt(c: &mut Case) -> R {
    let fine = c.s.chance(1, 8);
    let ps = if fine { gen_fine(c) } else { gen_points(c, T::EXACT, 22) };
    let lib: Vec<Point<T, 2>> = ps.iter().map(|p| pt(p)).collect();
    c.note(|| format!("{} points {}", T::NAME, ps.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" ")));
    let batch = c.s.chance(1, 3);
    let d = if batch {
        c.label("batch");
        let job = |pts: &[Point<T, 2>]| FaceJobUV { face_id: 0, verts_global: (0..pts.len()).collect(), points_uv: pts.to_vec(), segments: Vec::new() };
        let m = Mesh::<T, 3>::new();
        // a few jobs of different sizes, the case's points in the middle
        let pre = c.s.below(3);
        let pre = if c.s.chance(1, 60) { pre + 20 * c.s.below(4) } else { pre };
        let mut jobs: Vec<FaceJobUV<T>> = (0..pre).map(|k| job(&lib[..lib.len().min(k + 1)])).collect();
        jobs.push(job(&lib));
        jobs.push(job(&lib[..lib.len().min(3)]));
        let mut out = Delaunay::build_batch_with_constraints_bowyer_watson(&jobs, &m);
        ensure!(out.len() == jobs.len(), "{} results for {} jobs", out.len(), jobs.len());
        for (j, r) in jobs.iter().zip(&out) {
            ensure!(j.points_uv == r.points, "the results are not in the order of the jobs");
        }
        out.swap_remove(pre)
    } else {
        Delaunay::build(&lib)
    };
    ensure!(d.points == lib, "the points changed");
    let ts: Vec<[usize; 3]> = d.triangles.iter().map(|t| [t.0, t.1, t.2]).collect();
    let mut distinct = ps.clone();
    distinct.sort();
    distinct.dedup();
    if distinct.len() < ps.len() { c.label("duplicates"); }
    if hull(&ps).len() < 3 {
        c.label("flat");
        ensure!(ts.is_empty(), "triangles {ts:?} for points on one line");
        return Ok(());
    }
    c.nontrivial = distinct.len() >= 5;
    check_tiling(&ps, &ts)?;
    // the circles of close points are below the tolerance of the predicate
    if fine { return Ok(()) }
    for t in &ts {
        for (i, p) in ps.iter().enumerate() {
            ensure!(incircle(&ps[t[0]], &ps[t[1]], &ps[t[2]], p).sgn() <= 0, "point {i} is inside the circle of {t:?}");
        }
    }
    Ok(())
}
}

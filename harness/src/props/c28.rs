//! Convex hull of planar points.
use super::c08::dress;
use super::c13::{gen_points, hull, P2};
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::geometry::tri_tri_intersect::{back_project_to_3d, convex_hull_2d_indices};

pub const SPEC: Spec = Spec {
    id: "C28",
    rule: "the hull has at least four corners and does not use every point",
    quick: 600_000,
    thorough: 6_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

gfn! {
fn go(c: &mut Case) -> R {
    let ps: Vec<P2> = gen_points(c, T::EXACT, 30);
    let lib: Vec<Point<T, 2>> = ps.iter().map(|p| Point { coords: std::array::from_fn(|k| dress::<T>(c, &p[k])) }).collect();
    c.note(|| format!("{} points {}", T::NAME, ps.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" ")));
    let got = convex_hull_2d_indices(&lib);
    ensure!(got.iter().all(|i| *i < ps.len()), "hull {got:?} names a point that was not given");
    let mut distinct = ps.clone();
    distinct.sort();
    distinct.dedup();
    if distinct.len() < ps.len() { c.label("duplicates"); }
    let on: Vec<P2> = got.iter().map(|i| ps[*i].clone()).collect();
    if ps.len() >= 3 && distinct.len() >= 2 {
        // the same cycle of corners, from wherever it starts
        let want = hull(&ps);
        c.label(if want.len() < 3 { "flat" } else { "hull" });
        let at = on.iter().position(|p| *p == want[0]);
        let turned: Vec<P2> = match at { Some(k) => on[k..].iter().chain(&on[..k]).cloned().collect(), None => vec![] };
        ensure!(turned == want, "hull is {}, expected {}", on.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" "), want.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" "));
        if want.len() >= 4 && want.len() < ps.len() { c.nontrivial = true; }
    } else {
        // nothing to leave out
        c.label("few");
        let mut v = on.clone();
        v.sort();
        v.dedup();
        ensure!(v == distinct, "hull of {} points names {:?}", ps.len(), got);
    }
    // a projected point put back beside a reference
    if let (Some(p), Some(q)) = (ps.first(), ps.last()) {
        let drop = c.s.below(3);
        let [i, j] = [[1, 2], [0, 2], [0, 1]][drop];
        let r: Point<T, 3> = pt(&[q[0].clone(), q[1].clone(), &q[0] - &p[1]]);
        let x = unpt(&back_project_to_3d(&lib[0], i, j, drop, &r));
        ensure!(x[i] == p[0] && x[j] == p[1] && x[drop] == unpt(&r)[drop], "{} put back to {} with axis {drop} of {}", fmtv(p), fmtv(&x), fmtv(&unpt(&r)));
    }
    Ok(())
}
}

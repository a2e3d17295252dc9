//! Segment-segment (and ray-segment) intersection.
use crate::case::{Case, R, Spec};
use crate::num::{Num, pt, unpt};
use crate::props::geogen::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::edge_edge_intersect::edge_edge_intersection_2;
use cgar::geometry::intersection::*;
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use cgar::geometry::tri_tri_intersect::segment_intersect_2d;
use cgar::geometry::vector::Vector;
use cgar::mesh::topology::ray_segment_intersection_2d;

pub const SPEC: Spec = Spec {
    id: "C06",
    rule: "both segments have positive length and (for the sample count) their bounding boxes touch",
    quick: 500_000,
    thorough: 5_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    match c.s.below(3) {
        0 => by_num!(c, d2d(c)),
        1 => by_num!(c, d3d(c)),
        _ => by_num!(c, ray(c)),
    }
}

/// exact common part of two segments with positive length
#[derive(Debug, PartialEq)]
pub enum Meet<const N: usize> {
    No,
    At([Q; N]),
    Along([Q; N], [Q; N]),
}
pub fn meet<const N: usize>(a: &[Q; N], b: &[Q; N], p: &[Q; N], q: &[Q; N]) -> Meet<N> {
    let u = subn(b, a);
    let v = subn(q, p);
    let w = subn(p, a);
    let cr = |x: &[Q; N], y: &[Q; N], i: usize, j: usize| &(&x[i] * &y[j]) - &(&x[j] * &y[i]);
    for i in 0..N {
        for j in i + 1..N {
            let den = cr(&u, &v, i, j);
            if den.is0() {
                continue;
            }
            // a + s u = p + t v
            let s = cr(&w, &v, i, j) / den.clone();
            let t = cr(&w, &u, i, j) / den.clone();
            let (x, y) = (lerpn(a, b, &s), lerpn(p, q, &t));
            let one = Q::i(1);
            if x == y && s.sgn() >= 0 && s <= one && t.sgn() >= 0 && t <= one {
                return Meet::At(x);
            }
            return Meet::No;
        }
    }
    // parallel
    if !collinear(a, b, p) {
        return Meet::No;
    }
    let l2 = dotn(&u, &u);
    let t0 = dotn(&subn(p, a), &u) / l2.clone();
    let t1 = dotn(&subn(q, a), &u) / l2;
    let (lo, hi) = if t0 <= t1 { (t0, t1) } else { (t1, t0) };
    let lo = qmax(&lo, &Q::zero());
    let hi = qmin(&hi, &Q::i(1));
    if lo > hi {
        Meet::No
    } else if lo == hi {
        Meet::At(lerpn(a, b, &lo))
    } else {
        Meet::Along(lerpn(a, b, &lo), lerpn(a, b, &hi))
    }
}
pub fn close<T: Num, const N: usize>(x: &Point<T, N>, e: &[Q; N]) -> bool {
    let x = unpt(x);
    if T::EXACT { x == *e } else { (0..N).all(|i| (&x[i] - &e[i]).abs() <= (e[i].abs() + Q::i(1)) * Q::f(1e-8)) }
}
fn seg_is<T: Num, const N: usize>(a: &Point<T, N>, b: &Point<T, N>, m: &Meet<N>) -> bool {
    match m {
        Meet::No => false,
        Meet::At(x) => close(a, x) && close(b, x),
        Meet::Along(x, y) => (close(a, x) && close(b, y)) || (close(a, y) && close(b, x)),
    }
}

fn gen_segs<const N: usize>(c: &mut Case, exact: bool) -> Vec<[Q; N]> {
    let s = gen_style(c, exact);
    let mut v: Vec<[Q; N]> = vec![gen_pn(c, s), gen_pn(c, s)];
    match c.s.below(4) {
        0 => {
            for _ in 0..2 {
                let p = gen_rel(c, s, exact, &v);
                v.push(p);
            }
        }
        1 => {
            // through a chosen point of the first line
            let t = gen_t(c, exact);
            let m = lerpn(&v[0], &v[1], &t);
            let d: [Q; N] = gen_pn(c, Style::SmallInt);
            let sc = if s == Style::Offset { Q::nd(1, 1_000_000_000_000) } else { Q::i(1) };
            let d = scalen(&d, &sc);
            let (k, l) = ([0i64, 1, 2, -1][c.s.below(4)], [1i64, 0, 2, 3][c.s.below(4)]);
            v.push(subn(&m, &scalen(&d, &Q::i(k))));
            v.push(addn(&m, &scalen(&d, &Q::i(l))));
        }
        2 => {
            // on the same line
            for _ in 0..2 {
                let t = gen_t(c, exact);
                v.push(lerpn(&v[0], &v[1], &t));
            }
        }
        _ => {
            let p = gen_pn(c, s);
            let k = Q::i([1i64, -1, 2][c.s.below(3)]);
            let d = scalen(&subn(&v[1], &v[0]), &k);
            v.push(p.clone());
            if c.s.bool() { v.push(addn(&p, &d)) } else { v.push(gen_pn(c, s)) }
        }
    }
    if c.s.bool() {
        v.swap(0, 2);
        v.swap(1, 3);
    }
    v
}
fn boxes_touch<const N: usize>(v: &[[Q; N]]) -> bool {
    (0..N).all(|i| qmin(&v[0][i], &v[1][i]) <= qmax(&v[2][i], &v[3][i]) && qmin(&v[2][i], &v[3][i]) <= qmax(&v[0][i], &v[1][i]))
}
fn kind<const N: usize>(c: &mut Case, m: &Meet<N>) {
    c.label(match m {
        Meet::No => "disjoint",
        Meet::At(_) => "point",
        Meet::Along(..) => "overlap",
    });
}

gfn! {
fn d2d(c: &mut Case) -> R {
    let v = gen_segs::<2>(c, T::EXACT);
    if v[0] == v[1] || v[2] == v[3] || (!T::EXACT && !all_short(&v)) { return Ok(()); }
    let sh = format!("{} {}", T::NAME, show(&v));
    c.note(|| format!("segments {}", sh));
    c.nontrivial = boxes_touch(&v);
    let m = meet(&v[0], &v[1], &v[2], &v[3]);
    kind(c, &m);
    let p: Vec<Point<T, 2>> = v.iter().map(|x| pt(x)).collect();
    let (s, t) = (Segment::new(&p[0], &p[1]), Segment::new(&p[2], &p[3]));
    for (x, y) in [(&s, &t), (&t, &s)] {
        let r = segment_segment_intersection_2(x, y);
        let ok = match (&r, &m) {
            (SegmentIntersection2::None, Meet::No) => true,
            (SegmentIntersection2::Point(g), Meet::At(e)) => close(g, e),
            (SegmentIntersection2::Overlapping(g), Meet::Along(..)) => seg_is(&g.a, &g.b, &m),
            _ => false,
        };
        ensure!(ok, "2D intersection of {} is {:?} expected {:?}", sh, r, m);
    }
    for (i, j) in [(0, 2), (2, 0)] {
        let r = segment_intersect_2d(&p[i], &p[i + 1], &p[j], &p[j + 1]);
        let ok = match (&r, &m) {
            (None, Meet::No) => true,
            (Some(g), _) => seg_is(&g.a, &g.b, &m),
            _ => false,
        };
        ensure!(ok, "2D common part of {} is {:?} expected {:?}", sh, r, m);
        let r = edge_edge_intersection_2(&p[i], &p[i + 1], &p[j], &p[j + 1]);
        // parallel edges are never reported by this one
        let par = (&subn(&v[1], &v[0])[0] * &subn(&v[3], &v[2])[1]) == (&subn(&v[1], &v[0])[1] * &subn(&v[3], &v[2])[0]);
        let ok = match (&r, &m) {
            (None, Meet::No) => true,
            (None, _) => par,
            (Some(g), Meet::At(e)) => close(g, e),
            _ => false,
        };
        ensure!(ok, "edge-edge intersection of {} is {:?} expected {:?}", sh, r, m);
    }
    Ok(())
}
}

gfn! {
fn d3d(c: &mut Case) -> R {
    let v = gen_segs::<3>(c, T::EXACT);
    if v[0] == v[1] || v[2] == v[3] || (!T::EXACT && !all_short(&v)) { return Ok(()); }
    let m = meet(&v[0], &v[1], &v[2], &v[3]);
    if !T::EXACT && m == Meet::No {
        // doubles accept a distance of 1e-5; stay clearly away from it
        let d = cross3(&subn(&v[1], &v[0]), &subn(&v[3], &v[2]));
        let n = dotn(&d, &d);
        let w = dotn(&d, &subn(&v[2], &v[0]));
        if !n.is0() && !w.is0() && &(&w * &w) / &n < Q::f(1e-8) { return Ok(()); }
        if !n.is0() && n < Q::f(1e-3) { return Ok(()); }
    }
    let sh = format!("{} {}", T::NAME, show(&v));
    c.note(|| format!("segments {}", sh));
    c.nontrivial = boxes_touch(&v);
    kind(c, &m);
    let p: Vec<Point<T, 3>> = v.iter().map(|x| pt(x)).collect();
    let (s, t) = (Segment::new(&p[0], &p[1]), Segment::new(&p[2], &p[3]));
    for (x, y) in [(&s, &t), (&t, &s)] {
        let r = segment_segment_intersection_3(x, y);
        let ok = match (&r, &m) {
            (SegmentIntersection3::None, Meet::No) => true,
            (SegmentIntersection3::Point(g), Meet::At(e)) => close(g, e),
            (SegmentIntersection3::Overlapping(g), Meet::Along(..)) => seg_is(&g.a, &g.b, &m),
            _ => false,
        };
        ensure!(ok, "3D intersection of {} is {:?} expected {:?}", sh, r, m);
    }
    Ok(())
}
}

gfn! {
fn ray(c: &mut Case) -> R {
    let v = gen_segs::<2>(c, T::EXACT);
    if v[0] == v[1] || v[2] == v[3] || (!T::EXACT && !all_short(&v)) { return Ok(()); }
    let sh = format!("{} {}", T::NAME, show(&v));
    c.note(|| format!("ray {}", sh));
    c.nontrivial = boxes_touch(&v);
    let (o, d) = (&v[0], subn(&v[1], &v[0]));
    let s = subn(&v[3], &v[2]);
    let w = subn(&v[2], o);
    let den = &(&d[0] * &s[1]) - &(&d[1] * &s[0]);
    // first point of the segment along the ray, with its segment parameter
    let want: Option<(Q, Q)> = if !den.is0() {
        let t = (&(&w[0] * &s[1]) - &(&w[1] * &s[0])) / den.clone();
        let u = (&(&w[0] * &d[1]) - &(&w[1] * &d[0])) / den;
        if t.sgn() >= 0 && u.sgn() >= 0 && u <= Q::i(1) { Some((t, u)) } else { None }
    } else if collinear(o, &v[1], &v[2]) {
        let rr = dotn(&d, &d);
        let t0 = dotn(&w, &d) / rr.clone();
        let t1 = dotn(&subn(&v[3], o), &d) / rr;
        let (lo, hi) = if t0 <= t1 { (t0.clone(), t1.clone()) } else { (t1.clone(), t0.clone()) };
        if hi.sgn() < 0 { None } else {
            let t = qmax(&lo, &Q::zero());
            let u = (t.clone() - t0.clone()) / (t1 - t0);
            Some((t, u))
        }
    } else { None };
    c.label(if want.is_some() { "hit" } else { "miss" });
    let g = ray_segment_intersection_2d(&pt::<T, 2>(o), &Vector(pt::<T, 2>(&d)), &pt::<T, 2>(&v[2]), &pt::<T, 2>(&v[3]));
    let near = |x: &T, e: &Q| if T::EXACT { x.q() == *e } else { (x.q() - e.clone()).abs() <= (e.abs() + Q::i(1)) * Q::f(1e-8) };
    let ok = match (&g, &want) {
        (None, None) => true,
        (Some((t, u)), Some((a, b))) => near(t, a) && near(u, b),
        _ => false,
    };
    ensure!(ok, "ray-segment hit of {} is {:?} expected {:?}", sh, g, want);
    Ok(())
}
}

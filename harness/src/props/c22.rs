//! Axis-aligned boxes: construction, union, overlap, centre, inflation, and the boxes derived from points and faces.
use crate::case::{Case, R, Spec};
use crate::num::{Num, pt, unpt};
use crate::props::c08::dress;
use crate::props::geogen::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::aabb::Aabb;
use cgar::geometry::point::Point;
use cgar::kernel::predicates::*;
use cgar::mesh::basic_types::Mesh;
use cgar::mesh::core::*;

pub const SPEC: Spec = Spec {
    id: "C22",
    rule: "the two boxes have positive extent on some axis and neither equals the other",
    quick: 400_000,
    thorough: 5_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    if c.s.bool() { by_num!(c, go2(c)) } else { by_num!(c, go3(c)) }
}

fn inside<const N: usize>(p: &[Q; N], lo: &[Q; N], hi: &[Q; N]) -> bool {
    (0..N).all(|i| lo[i] <= p[i] && p[i] <= hi[i])
}

macro_rules! body {
    ($name:ident, $n:literal, $extra:ident) => {
        gfn! {
        fn $name(c: &mut Case) -> R {
            const N: usize = $n;
            let v: Vec<[Q; N]> = gen_rels::<N>(c, T::EXACT, 5);
            let v: Vec<[Q; N]> = if T::EXACT { v } else { v.iter().map(|p| std::array::from_fn(|i| Q::f(p[i].to_f64()))).collect() };
            c.note(|| format!("{} {}", T::NAME, show(&v)));
            // reading a value exactly caches it, so each group of calls gets its own copies
            let fresh = |c: &mut Case| -> Vec<Point<T, N>> { v.iter().map(|q| Point { coords: std::array::from_fn(|i| dress::<T>(c, &q[i])) }).collect() };
            let p = fresh(c);
            let a = Aabb::from_points(&p[0], &p[1]);
            let b = Aabb::from_points(&p[2], &p[3]);
            let mn = |i: usize, j: usize| -> [Q; N] { std::array::from_fn(|k| qmin(&v[i][k], &v[j][k])) };
            let mx = |i: usize, j: usize| -> [Q; N] { std::array::from_fn(|k| qmax(&v[i][k], &v[j][k])) };
            let (alo, ahi, blo, bhi) = (mn(0, 1), mx(0, 1), mn(2, 3), mx(2, 3));
            ensure!(unpt(&a.min) == alo && unpt(&a.max) == ahi, "box of two points is {}..{}", fmtv(&unpt(&a.min)), fmtv(&unpt(&a.max)));
            ensure!(unpt(a.min()) == alo && unpt(a.max()) == ahi, "corner accessors differ");
            if (0..N).any(|i| alo[i] != ahi[i]) && (0..N).any(|i| blo[i] != bhi[i]) && (&alo, &ahi) != (&blo, &bhi) { c.nontrivial = true; }
            // union: smallest box containing both
            for (x, y) in [(&a, &b), (&b, &a)] {
                let u = x.union(y);
                let lo: [Q; N] = std::array::from_fn(|k| qmin(&alo[k], &blo[k]));
                let hi: [Q; N] = std::array::from_fn(|k| qmax(&ahi[k], &bhi[k]));
                ensure!(unpt(&u.min) == lo && unpt(&u.max) == hi, "union is {}..{}", fmtv(&unpt(&u.min)), fmtv(&unpt(&u.max)));
            }
            // overlap
            let tol = if T::EXACT { Q::i(0) } else { Q::f(1e-9) };
            let strict = (0..N).all(|k| alo[k] <= bhi[k] && blo[k] <= ahi[k]);
            let loose = (0..N).all(|k| alo[k] <= &bhi[k] + &tol && blo[k] <= &ahi[k] + &tol);
            c.label(if strict { "overlap" } else { "apart" });
            let p = fresh(c);
            let a = Aabb::from_points(&p[0], &p[1]);
            let b = Aabb::from_points(&p[2], &p[3]);
            let dr = |c: &mut Case, q: &[Q; N]| -> Point<T, N> { Point { coords: std::array::from_fn(|i| dress::<T>(c, &q[i])) } };
            let a2 = Aabb::new(dr(c, &alo), dr(c, &ahi));
            let b2 = Aabb::new(dr(c, &blo), dr(c, &bhi));
            for (x, y) in [(&a2, &b2), (&a, &b), (&b, &a)] {
                ensure!(x.intersects_approx(y) != Some(false) || !strict, "the quick test rejects touching boxes");
                ensure!(x.intersects_approx(y) != Some(true) || loose, "the quick test accepts disjoint boxes");
                let g = x.intersects(y);
                ensure!(!strict || g, "touching boxes reported apart");
                ensure!(loose || !g, "disjoint boxes reported as touching");
                ensure!(x.intersects_approx(y) != Some(false) || !strict, "the quick test rejects touching boxes");
                ensure!(x.intersects_approx(y) != Some(true) || loose, "the quick test accepts disjoint boxes");
                c.checks += 2;
            }
            // centre, longest axis
            let mut best = Q::i(-1);
            for k in 0..N {
                let exp = (&alo[k] + &ahi[k]) * Q::nd(1, 2);
                let g = a.center(k).q();
                ensure!(if T::EXACT { g == exp } else { (&g - &exp).abs() <= Q::f(1e-9) * (Q::i(1) + exp.abs()) }, "centre on axis {} is {:?} instead of {:?}", k, g, exp);
                best = qmax(&best, &(&ahi[k] - &alo[k]));
            }
            let la = a.longest_axis();
            ensure!(la < N && &ahi[la] - &alo[la] >= best - Q::f(if T::EXACT { 0.0 } else { 1e-9 }), "axis {} is not the longest", la);
            // inflation
            let dq = if T::EXACT { Q::nd(c.s.int(0, 20), 1 + c.s.below(9) as i64) } else { Q::nd(c.s.int(0, 20), 8) };
            let f = a.inflated(&T::of(&dq));
            for k in 0..N {
                ensure!(f.min[k].q() == &alo[k] - &dq && f.max[k].q() == &ahi[k] + &dq, "inflating by {:?} gave {}..{}", dq, fmtv(&unpt(&f.min)), fmtv(&unpt(&f.max)));
            }
            let f = a.inflated_query_tol();
            let qt = T::query_tolerance().q();
            let slack = Q::f(1e-12);
            for k in 0..N {
                let (l, h) = (&alo[k] - &f.min[k].q(), &f.max[k].q() - &ahi[k]);
                ensure!(if T::EXACT { l == qt && h == qt } else { (&l - &qt).abs() <= slack && (&h - &qt).abs() <= slack }, "inflating by the query tolerance moved axis {} by {:?},{:?}", k, l, h);
            }
            // triangle boxes contain the triangle and are tight up to double rounding
            let tl: [Q; N] = std::array::from_fn(|k| qmin(&qmin(&v[0][k], &v[1][k]), &v[2][k]));
            let th: [Q; N] = std::array::from_fn(|k| qmax(&qmax(&v[0][k], &v[1][k]), &v[2][k]));
            let e = compute_triangle_aabb_exact(&p[0], &p[1], &p[2]);
            ensure!(near_box::<T>(&unpt(&e.min), &tl) && near_box::<T>(&unpt(&e.max), &th), "exact triangle box is {}..{}", fmtv(&unpt(&e.min)), fmtv(&unpt(&e.max)));
            let p = fresh(c);
            if let Some(e) = compute_triangle_aabb_fast(&p[0], &p[1], &p[2]) {
                let (lo, hi) = (unpt(&e.min), unpt(&e.max));
                ensure!((0..3).all(|i| inside(&v[i], &lo, &hi)), "the quick triangle box {}..{} does not contain the triangle", fmtv(&lo), fmtv(&hi));
                c.label("fast box");
            }
            let p = fresh(c);
            $extra(c, &v, &p)
        }
        }
    };
}
body!(go2, 2, extra2);
body!(go3, 3, extra3);

gfn! {
fn near_box(a: &[Q], b: &[Q]) -> bool {
    a.iter().zip(b).all(|(x, y)| if T::EXACT { x == y } else { (x - y).abs() <= Q::f(1e-9) })
}
}

/// approximate boxes only promise the double nearest to plain (underived) coordinates
fn approx_ok(got: &Q, exp: &Q) -> bool {
    (got - exp).abs() <= Q::f(4e-16) * exp.abs() + Q::f(1e-300)
}
fn span<const N: usize>(v: &[[Q; N]]) -> ([Q; N], [Q; N]) {
    let lo = std::array::from_fn(|k| v.iter().map(|p| p[k].clone()).min().unwrap());
    let hi = std::array::from_fn(|k| v.iter().map(|p| p[k].clone()).max().unwrap());
    (lo, hi)
}

macro_rules! extra {
    ($name:ident, $n:literal, $bb:ident, $ba:ident) => {
        gfn! {
        fn $name(c: &mut Case, v: &[[Q; $n]], p: &[Point<T, $n>]) -> R {
            let n = 1 + c.s.below(5);
            let (lo, hi) = span(&v[..n]);
            let (a, b) = $bb(&p[..n]);
            ensure!(near_box::<T>(&unpt(&a), &lo) && near_box::<T>(&unpt(&b), &hi), "bounding box of {} points is {}..{}", n, fmtv(&unpt(&a)), fmtv(&unpt(&b)));
            let plain: Vec<Point<T, $n>> = v.iter().map(|q| pt(q)).collect();
            let (a, b) = $ba(&plain[..n]);
            let (a, b) = (unpt(&a), unpt(&b));
            ensure!((0..$n).all(|k| approx_ok(&a[k], &lo[k]) && approx_ok(&b[k], &hi[k])), "approximate bounding box of {} points is {}..{}", n, fmtv(&a), fmtv(&b));
            // boxes of mesh faces
            let mut m = Mesh::<T, $n>::new();
            if !collinear(&v[0], &v[1], &v[2]) {
                let id: Vec<usize> = (0..3).map(|i| m.add_vertex(p[i].clone())).collect();
                let f = m.add_triangle(id[0], id[1], id[2]);
                let bx = m.face_aabb(f);
                let (l, h) = (unpt(&bx.min), unpt(&bx.max));
                ensure!((0..3).all(|i| inside(&v[i], &l, &h)), "face box {}..{} does not contain the face", fmtv(&l), fmtv(&h));
                let (tl, th) = span(&v[..3]);
                ensure!((0..$n).all(|k| &tl[k] - &l[k] <= slack(&tl[k]) && &h[k] - &th[k] <= slack(&th[k])), "face box {}..{} is far larger than the face", fmtv(&l), fmtv(&h));
                c.label("face box");
                // the face tree finds the face with its own vertices as query
                let tree = m.build_face_tree();
                let (_, boxes) = m.build_face_tree_with_lookup();
                ensure!(boxes.len() == 1 && (0..3).all(|i| inside(&v[i], &unpt(&boxes[0].min), &unpt(&boxes[0].max))), "the box listed for the face does not contain it");
                for i in 0..3 {
                    let q = Aabb::from_points(&p[i], &p[i]);
                    let mut out: Vec<&usize> = vec![];
                    tree.query(&q, &mut out);
                    ensure!(out == vec![&f], "the face tree misses a face at its own vertex {}", fmtv(&v[i]));
                }
            }
            Ok(())
        }
        }
    };
}
fn slack(x: &Q) -> Q {
    Q::f(1e-8) * (Q::i(1) + x.abs())
}
extra!(extra2, 2, bbox2d, bbox_approx2d);
extra!(extra3, 3, bbox3d, bbox_approx3d);

//! Signs of the orientation determinants and the in-circle test.
use crate::case::{Case, R, Spec};
use crate::num::{Num, pt};
use crate::props::geogen::*;
use crate::props::numgen::gen_f64;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::kernel::predicates::{incircle as lib_incircle, orient2d as lib_orient2d};
use cgar::kernel::{Kernel2, Kernel3, orient};
use cgar::numeric::cgar_f64::CgarF64;

pub const SPEC: Spec = Spec {
    id: "C04",
    rule: "the generated points are pairwise distinct (degenerate and nearly degenerate placements included)",
    quick: 600_000,
    thorough: 6_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    match c.s.weighted(&[3, 3, 3, 2]) {
        0 => by_num!(c, o2(c)),
        1 => by_num!(c, o3(c)),
        2 => by_num!(c, inc(c)),
        _ => wide_f64(c),
    }
}
fn distinct<const N: usize>(v: &[[Q; N]]) -> bool {
    (0..v.len()).all(|i| (0..i).all(|j| v[i] != v[j]))
}
/// sign of the value itself (not of the tolerant comparison)
fn raw<T: Num>(x: &T) -> i8 {
    x.q().sgn()
}
/// permutation sign
fn par(p: &[usize]) -> i8 {
    let mut s = 1;
    for i in 0..p.len() {
        for j in 0..i {
            if p[j] > p[i] {
                s = -s;
            }
        }
    }
    s
}

gfn! {
fn o2(c: &mut Case) -> R {
    let v = gen_rels::<2>(c, T::EXACT, 3);
    if !T::EXACT && !all_short(&v) { return Ok(()); }
    c.note(|| format!("orient2 {} {}", T::NAME, show(&v)));
    c.nontrivial = distinct(&v);
    let e = orient2(&v[0], &v[1], &v[2]);
    if e.is0() { c.label("collinear"); }
    let pm = c.s.perm(3);
    let p: Vec<Point<T, 2>> = pm.iter().map(|&i| pt(&v[i])).collect();
    let want = e.sgn() * par(&pm);
    let got = orient::<T, 2>(&p);
    ensure!(raw(&got) == want, "orient(2D, {}) of {} has sign {} expected {}", T::NAME, show(&v), raw(&got), want);
    if T::EXACT { ensure!(got.sign() == want, "orient sign() disagrees with value"); }
    let got = lib_orient2d(&p[0], &p[1], &p[2]);
    snap(&got, want, &e.abs(), &scale1(&v), "orient2d", &show(&v))?;
    // the double kernel
    if all_short(&v) {
        let f: Vec<Point<CgarF64, 2>> = pm.iter().map(|&i| pt(&v[i])).collect();
        let g = <F64Kernel as Kernel2>::orient2d(&f[0], &f[1], &f[2]);
        ensure!(raw(&g) == want, "double kernel orient2d of {} has sign {} expected {}", show(&v), raw(&g), want);
    }
    Ok(())
}
}

fn scale1(v: &[V2]) -> Q {
    let mut s = Q::zero();
    for p in v {
        s = s + p[0].abs() + p[1].abs();
    }
    s
}

/// Result of a predicate that reports "degenerate" within a documented tolerance.
fn snap<T: Num>(got: &T, want: i8, mag: &Q, scale: &Q, what: &str, sh: &str) -> R {
    let g = raw(got);
    ensure!(g == 0 || g == want, "{} ({}) of {} has sign {} expected {}", what, T::NAME, sh, g, want);
    // clearly outside the tolerance the sign must be reported
    let tol = (if *scale < Q::i(1) { Q::i(1) } else { scale.clone() }) * Q::f(1.001e-10);
    if *mag > tol {
        ensure!(g == want, "{} ({}) of {} reports degenerate, expected {}", what, T::NAME, sh, want);
    }
    Ok(())
}

gfn! {
fn o3(c: &mut Case) -> R {
    let v = gen_rels::<3>(c, T::EXACT, 4);
    if !T::EXACT && !all_short(&v) { return Ok(()); }
    c.note(|| format!("orient3 {} {}", T::NAME, show(&v)));
    c.nontrivial = distinct(&v);
    let e = orient3(&v[0], &v[1], &v[2], &v[3]);
    if e.is0() { c.label("coplanar"); }
    let pm = c.s.perm(4);
    let p: Vec<Point<T, 3>> = pm.iter().map(|&i| pt(&v[i])).collect();
    let want = e.sgn() * par(&pm);
    let got = orient::<T, 3>(&p);
    ensure!(raw(&got) == want, "orient(3D, {}) of {} (order {:?}) has sign {} expected {}", T::NAME, show(&v), pm, raw(&got), want);
    if all_short(&v) {
        let f: Vec<Point<CgarF64, 3>> = pm.iter().map(|&i| pt(&v[i])).collect();
        let g = <F64Kernel as Kernel3>::orient3d(&f[0], &f[1], &f[2], &f[3]);
        ensure!(raw(&g) == want, "double kernel orient3d of {} has sign {} expected {}", show(&v), raw(&g), want);
    }
    Ok(())
}
}

gfn! {
fn inc(c: &mut Case) -> R {
    let mut v: Vec<V2>;
    if c.s.bool() {
        // points on a common circle: rotations/reflections of Pythagorean pairs about a centre
        let s = gen_style(c, false);
        let o: V2 = gen_pn(c, s);
        let (a, b) = [(3i64, 4i64), (5, 12), (7, 24), (0, 5), (1, 2)][c.s.below(5)];
        let sc = if T::EXACT { Q::nd(1 + c.s.below(6) as i64, 1 + c.s.below(6) as i64) } else { Q::nd(1 + c.s.below(3) as i64, 4) };
        v = vec![];
        for _ in 0..4 {
            let (x, y) = if c.s.bool() { (a, b) } else { (b, a) };
            let sx = if c.s.bool() { 1 } else { -1 };
            let sy = if c.s.bool() { 1 } else { -1 };
            v.push([&o[0] + &(&sc * &Q::i(x * sx)), &o[1] + &(&sc * &Q::i(y * sy))]);
        }
        if c.s.chance(1, 2) {
            let i = c.s.below(4);
            let ax = c.s.below(2);
            let d = if T::EXACT { Q::f([1e-3, 1e-6, 1e-12, 0.125][c.s.below(4)]) } else { Q::nd(1, 8) };
            v[i][ax] = if c.s.bool() { &v[i][ax] + &d } else { &v[i][ax] - &d };
        }
    } else {
        v = gen_rels::<2>(c, T::EXACT, 4);
    }
    if !T::EXACT && !all_short(&v) { return Ok(()); }
    if orient2(&v[0], &v[1], &v[2]).sgn() < 0 { v.swap(1, 2); }
    c.note(|| format!("incircle {} {}", T::NAME, show(&v)));
    c.nontrivial = distinct(&v);
    let e = incircle(&v[0], &v[1], &v[2], &v[3]);
    if e.is0() { c.label("cocircular"); }
    let p: Vec<Point<T, 2>> = v.iter().map(|x| pt(x)).collect();
    let mut sc = Q::zero();
    for i in 0..3 { let u = subn(&v[i], &v[3]); sc = sc + u[0].abs() + u[1].abs(); }
    if sc < Q::i(1) { sc = Q::i(1); }
    let want = e.sgn();
    snap(&lib_incircle(&p[0], &p[1], &p[2], &p[3]), want, &e.abs(), &(&sc * &sc), "incircle", &show(&v))
}
}

/// Arbitrary doubles: the sign must be right whenever the determinant exceeds what rounding can produce.
fn wide_f64(c: &mut Case) -> R {
    c.label("f64-wide");
    let n = 2 + c.s.below(2);
    let mut g = |c: &mut Case| {
        let mut x = gen_f64(c, false);
        while x.abs() > 1e12 {
            x /= 1e6;
        }
        Q::f(if x.abs() < 1e-30 { 0.0 } else { x })
    };
    if n == 2 {
        let v: Vec<V2> = (0..3).map(|_| [g(c), g(c)]).collect();
        let p: Vec<Point<CgarF64, 2>> = v.iter().map(|x| pt(x)).collect();
        c.note(|| format!("orient2 double {}", show(&v)));
        c.nontrivial = distinct(&v);
        let e = orient2(&v[0], &v[1], &v[2]);
        let (a, b) = (subn(&v[1], &v[0]), subn(&v[2], &v[0]));
        let per = (&a[0] * &b[1]).abs() + (&a[1] * &b[0]).abs();
        let o = orient::<CgarF64, 2>(&p);
        let k = <F64Kernel as Kernel2>::orient2d(&p[0], &p[1], &p[2]);
        if e.abs() > &per * &Q::f(1e-14) {
            ensure!(raw(&o) == e.sgn() && raw(&k) == e.sgn(), "orientation of {} has sign {}/{} expected {}", show(&v), raw(&o), raw(&k), e.sgn());
        }
        if e.abs() > &(&per + &scale1(&v)) * &Q::f(1.001e-10) {
            let g = lib_orient2d(&p[0], &p[1], &p[2]);
            ensure!(raw(&g) == e.sgn(), "orient2d of {} has sign {} expected {}", show(&v), raw(&g), e.sgn());
        }
    } else {
        let v: Vec<V3> = (0..4).map(|_| [g(c), g(c), g(c)]).collect();
        let p: Vec<Point<CgarF64, 3>> = v.iter().map(|x| pt(x)).collect();
        c.note(|| format!("orient3 double {}", show(&v)));
        c.nontrivial = distinct(&v);
        let e = orient3(&v[0], &v[1], &v[2], &v[3]);
        let m = |i: usize| {
            let u = subn(&v[i], &v[0]);
            u[0].abs() + u[1].abs() + u[2].abs()
        };
        let per = m(1) * m(2) * m(3);
        if e.abs() > per * Q::f(1e-9) {
            let o = orient::<CgarF64, 3>(&p);
            let k = <F64Kernel as Kernel3>::orient3d(&p[0], &p[1], &p[2], &p[3]);
            ensure!(raw(&o) == e.sgn() && raw(&k) == e.sgn(), "orientation of {} has sign {}/{} expected {}", show(&v), raw(&o), raw(&k), e.sgn());
        }
    }
    Ok(())
}

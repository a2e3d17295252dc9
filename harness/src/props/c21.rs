//! Points, vectors, segments, matrices and planes: every operation against its definition over the rationals.
use super::geogen::*;
use crate::case::*;
use crate::num::*;
use crate::props::c08::dress;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::canonical_edge::CanonicalEdge;
use cgar::geometry::matrix::Matrix;
use cgar::geometry::plane::{Plane, PlaneOps};
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::segment::{Segment, SegmentOps};
use cgar::geometry::spatial_element::SpatialElement;
use cgar::geometry::util::{barycentric_coords, f64_next_down, f64_next_up};
use cgar::geometry::vector::{Cross2, Cross3, Vector, VectorOps, vector_cross};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::operations::Zero;
use std::hash::{Hash, Hasher};

pub const SPEC: Spec = Spec {
    id: "C21",
    rule: "the drawn vectors or rows are not all zero",
    quick: 400_000,
    thorough: 3_000_000,
    fresh_thread: false,
    run,
};

fn close<T: Num>(x: &T, want: &Q) -> bool {
    if T::EXACT {
        return x.q() == *want;
    }
    let f = x.ball_center_f64();
    f.is_finite() && (&Q::f(f) - want).abs() <= (want.abs() + Q::i(1)) * Q::f(1e-9)
}
fn closev<T: Num, const N: usize>(x: &Point<T, N>, want: &[Q; N]) -> bool {
    (0..N).all(|i| close(&x.coords[i], &want[i]))
}
fn hash<H: Hash>(x: &H) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Leibniz expansion, independent of how the library expands
fn det_q<const N: usize>(m: &[[Q; N]; N]) -> Q {
    fn rec<const N: usize>(m: &[[Q; N]; N], row: usize, used: &mut [bool; N], inv: usize) -> Q {
        if row == N {
            return if inv % 2 == 0 { Q::i(1) } else { Q::i(-1) };
        }
        let mut s = Q::i(0);
        for j in 0..N {
            if !used[j] && !m[row][j].is0() {
                let k = (j + 1..N).filter(|x| used[*x]).count();
                used[j] = true;
                s = &s + &(&m[row][j] * &rec(m, row + 1, used, inv + k));
                used[j] = false;
            }
        }
        s
    }
    rec(m, 0, &mut [false; N], 0)
}
fn gen_s(c: &mut Case, exact: bool) -> Style {
    if exact { gen_style(c, true) } else { [Style::SmallInt, Style::Eighths][c.s.below(2)] }
}
fn gen_mat<const A: usize, const C: usize>(c: &mut Case, s: Style) -> [[Q; C]; A] {
    let mut m: [[Q; C]; A] = std::array::from_fn(|_| gen_pn::<C>(c, s));
    // make singular and nearly diagonal matrices common
    match c.s.below(6) {
        0 if A >= 2 => {
            let (i, j) = (c.s.below(A), c.s.below(A));
            if i != j {
                let k = Q::i(c.s.int(-2, 2));
                m[i] = scalen(&m[j], &k);
            }
        }
        1 if A >= 3 => {
            let pm = c.s.perm(A);
            m[pm[0]] = addn(&m[pm[1]], &scalen(&m[pm[2]], &Q::i(c.s.int(-1, 2))));
        }
        2 => {
            for i in 0..A {
                for j in 0..C {
                    if i != j && c.s.bool() {
                        m[i][j] = Q::i(0);
                    }
                }
            }
        }
        _ => {}
    }
    m
}
fn mat<T: Num, const A: usize, const C: usize>(m: &[[Q; C]; A]) -> Matrix<T, A, C> {
    Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| T::of(&m[i][j]))))
}
fn mclose<T: Num, const A: usize, const C: usize>(m: &Matrix<T, A, C>, want: &dyn Fn(usize, usize) -> Q, what: &str) -> R {
    for i in 0..A {
        for j in 0..C {
            ensure!(close(&m[i][j], &want(i, j)), "{what}: entry ({i},{j}) is {}, expected {}", m[i][j].q(), want(i, j));
        }
    }
    Ok(())
}

macro_rules! vecs {
    ($name:ident, $n:literal) => {
        gfn! {
            fn $name(c: &mut Case) -> R {
                const N: usize = $n;
                let s = gen_s(c, T::EXACT);
                let v: Vec<[Q; N]> = (0..3).map(|_| gen_pn::<N>(c, s)).collect();
                let k = gen_coord(c, s);
                let t = gen_t(c, T::EXACT);
                c.note(|| format!("{} {} k={} t={}", T::NAME, show(&v), k, t));
                c.nontrivial = v.iter().any(|x| !is0n(x));
                let p: Vec<Point<T, N>> = v.iter().map(|q| Point { coords: std::array::from_fn(|i| dress::<T>(c, &q[i])) }).collect();
                let w: Vec<Vector<T, N>> = p.iter().map(|x| Vector::from(x.clone())).collect();
                let (tk, tt) = (T::of(&k), T::of(&t));
                ensure!(close(&w[0].dot(&w[1]), &dotn(&v[0], &v[1])), "dot product is {}", w[0].dot(&w[1]).q());
                ensure!(close(&w[0].norm2(), &dotn(&v[0], &v[0])), "squared norm is {}", w[0].norm2().q());
                ensure!(closev(&w[0].scale(&tk).0, &scalen(&v[0], &k)), "scale");
                let mut x = w[1].clone();
                x.axpy(&tk, &w[0]);
                ensure!(closev(&x.0, &addn(&v[1], &scalen(&v[0], &k))), "axpy gives {}", fmtv(&unpt(&x.0)));
                ensure!(closev(&(&w[0] + &w[1]).0, &addn(&v[0], &v[1])), "vector sum");
                ensure!(closev(&(w[0].clone() + w[1].clone()).0, &addn(&v[0], &v[1])), "vector sum by value");
                ensure!(closev(&(&w[0] - &w[1]).0, &subn(&v[0], &v[1])), "vector difference");
                ensure!(closev(&(w[0].clone() - w[1].clone()).0, &subn(&v[0], &v[1])), "vector difference by value");
                ensure!(closev(&(-w[0].clone()).0, &scalen(&v[0], &Q::i(-1))), "negation");
                ensure!(w[0].is_zero() == is0n(&v[0]) || !T::EXACT, "vector zero test");
                ensure!((w[0] == w[1]) == (v[0] == v[1]), "vector equality of {} and {}", fmtv(&v[0]), fmtv(&v[1]));
                // points
                ensure!(closev(&(&p[0] + &p[1]), &addn(&v[0], &v[1])), "point sum");
                ensure!(closev(&(&p[0] - &p[1]), &subn(&v[0], &v[1])), "point difference");
                ensure!(closev(&PointOps::sub(&p[0], &p[1]), &subn(&v[0], &v[1])), "point difference (method)");
                ensure!(closev(&p[0].add_vector(&w[1]), &addn(&v[0], &v[1])), "point plus vector");
                ensure!(closev(&p[0].vector_to(&p[1]).0, &subn(&v[1], &v[0])), "vector between points");
                ensure!(closev(&p[0].as_vector().0, &v[0]), "point as vector");
                ensure!(closev(&p[0].midpoint(&p[1]), &lerpn(&v[0], &v[1], &Q::nd(1, 2))), "midpoint");
                ensure!((p[0] == p[1]) == (v[0] == v[1]), "point equality of {} and {}", fmtv(&v[0]), fmtv(&v[1]));
                if T::EXACT || s != Style::Offset {
                    let want = (0..N).map(|i| v[0][i].cmp(&v[1][i])).find(|o| o.is_ne()).unwrap_or(std::cmp::Ordering::Equal);
                    ensure!(p[0].partial_cmp(&p[1]) == Some(want), "lexicographic order of points is {:?}", p[0].partial_cmp(&p[1]));
                    ensure!(w[0].partial_cmp(&w[1]) == Some(want), "lexicographic order of vectors is {:?}", w[0].partial_cmp(&w[1]));
                }
                if v[0] == v[1] {
                    ensure!(hash(&p[0]) == hash(&p[1]) && hash(&w[0]) == hash(&w[1]), "equal points hash differently");
                }
                // segments
                let sg = Segment::new(&p[0], &p[1]);
                let d = subn(&v[1], &v[0]);
                let len2 = dotn(&d, &d);
                ensure!(close(&sg.length2(), &len2), "squared length is {}", sg.length2().q());
                ensure!(closev(&sg.midpoint(), &lerpn(&v[0], &v[1], &Q::nd(1, 2))), "segment midpoint");
                ensure!(closev(&sg.direction().0, &d), "segment direction");
                let inv = sg.inverse();
                let mut inv2 = sg.clone();
                inv2.invert();
                for i in [&inv, &inv2] {
                    ensure!(unpt(&i.a) == v[1] && unpt(&i.b) == v[0], "inverted segment");
                }
                ensure!(unpt(&sg[0]) == v[0] && unpt(&sg[1]) == v[1] && unpt(sg.a()) == v[0] && unpt(sg.b()) == v[1], "segment ends");
                let on = lerpn(&v[0], &v[1], &t);
                let on_t: Point<T, N> = pt(&on);
                if !len2.is0() {
                    ensure!(close(&sg.parameter_of_point(&on_t), &t), "parameter of the point at {} is {}", t, sg.parameter_of_point(&on_t).q());
                    let off: Q = &dotn(&subn(&v[2], &v[0]), &d) / &len2;
                    ensure!(close(&sg.parameter_of_point(&p[2]), &off), "parameter of the projection is {}, expected {}", sg.parameter_of_point(&p[2]).q(), off);
                    if T::EXACT || short(&on) {
                        let within = t.sgn() >= 0 && t <= Q::i(1);
                        ensure!(sg.is_point_on(&on_t) == within, "point at parameter {} on segment: {}", t, sg.is_point_on(&on_t));
                    }
                    // clearly off the line
                    let perp = subn(&subn(&v[2], &v[0]), &scalen(&d, &off));
                    if dotn(&perp, &perp) > &len2 * &Q::nd(1, 1_000_000) {
                        ensure!(!sg.is_point_on(&p[2]), "point {} off the line reported on the segment", fmtv(&v[2]));
                    }
                    let e1 = CanonicalEdge::new(&p[0], &p[1]);
                    let e2 = CanonicalEdge::new(&p[1], &p[0]);
                    ensure!(e1 == e2, "canonical edge depends on the order of its ends");
                    let flip = unpt(&e1.a) != v[0];
                    let want = if flip { &Q::i(1) - &t } else { t.clone() };
                    let got = e1.parameter_t(&on_t);
                    ensure!(close(&got, &want), "canonical edge parameter {} of a point at {}", got.q(), want);
                }
                Ok(())
            }
        }
    };
}
vecs!(vec2, 2);
vecs!(vec3, 3);

gfn! {
    fn cross(c: &mut Case) -> R {
        let s = gen_s(c, T::EXACT);
        let v: Vec<[Q; 3]> = (0..2).map(|_| gen_pn::<3>(c, s)).collect();
        let u: Vec<[Q; 2]> = (0..2).map(|_| gen_pn::<2>(c, s)).collect();
        c.note(|| format!("{} {} {}", T::NAME, show(&v), show(&u)));
        c.nontrivial = v.iter().any(|x| !is0n(x));
        let (a, b): (Vector<T, 3>, Vector<T, 3>) = (Vector(pt(&v[0])), Vector(pt(&v[1])));
        ensure!(closev(&a.cross(&b).0, &cross3(&v[0], &v[1])), "cross product is {}", fmtv(&unpt(&a.cross(&b).0)));
        ensure!(closev(&vector_cross(&a, &b).0, &cross3(&v[0], &v[1])), "free cross product is {}", fmtv(&unpt(&vector_cross(&a, &b).0)));
        let (x, y): (Vector<T, 2>, Vector<T, 2>) = (Vector(pt(&u[0])), Vector(pt(&u[1])));
        let z = &(&u[0][0] * &u[1][1]) - &(&u[0][1] * &u[1][0]);
        ensure!(close(&Cross2::cross(&x, &y), &z), "planar cross product is {}", Cross2::cross(&x, &y).q());
        // linear interpolation and a perpendicular
        let t = gen_t(c, T::EXACT);
        ensure!(closev(&a.lerp(&b, &T::of(&t)).0, &lerpn(&v[0], &v[1], &t)), "lerp");
        if !is0n(&v[0]) {
            let n = a.any_perpendicular();
            let nq = unpt(&n.0);
            ensure!(!is0n(&nq), "perpendicular of {} is zero", fmtv(&v[0]));
            ensure!(close(&n.dot(&a), &Q::i(0)), "'perpendicular' of {} is {}", fmtv(&v[0]), fmtv(&nq));
        }
        let f: [[Q; 4]; 2] = [gen_pn(c, s), gen_pn(c, s)];
        let (p, q): (Vector<T, 4>, Vector<T, 4>) = (Vector(pt(&f[0])), Vector(pt(&f[1])));
        ensure!(close(&p.dot(&q), &dotn(&f[0], &f[1])), "4D dot product");
        ensure!(close(&p.norm2(), &dotn(&f[0], &f[0])), "4D norm");
        ensure!(closev(&p.lerp(&q, &T::of(&t)).0, &lerpn(&f[0], &f[1], &t)), "4D lerp");
        let k = gen_coord(c, s);
        ensure!(closev(&p.scale(&T::of(&k)).0, &scalen(&f[0], &k)), "4D scale");
        let mut z = p.clone();
        z.axpy(&T::of(&k), &q);
        ensure!(closev(&z.0, &addn(&f[0], &scalen(&f[1], &k))), "4D axpy");
        if !is0n(&f[0]) {
            let n = p.any_perpendicular();
            ensure!(!is0n(&unpt(&n.0)), "4D perpendicular of {} is zero", fmtv(&f[0]));
            ensure!(close(&n.dot(&p), &Q::i(0)), "4D 'perpendicular' of {} is {}", fmtv(&f[0]), fmtv(&unpt(&n.0)));
        }
        Ok(())
    }
}

macro_rules! square {
    ($c:expr, $T:ty, $n:literal, $inv:expr) => {{
        let c: &mut Case = $c;
        const N: usize = $n;
        let s = if <$T>::EXACT { [Style::SmallInt, Style::Eighths, Style::Rational][c.s.below(3)] } else { [Style::SmallInt, Style::Eighths][c.s.below(2)] };
        let a: [[Q; N]; N] = gen_mat(c, s);
        let b: [[Q; N]; N] = gen_mat(c, s);
        c.note(|| format!("{} A={} B={}", <$T>::NAME, show(&a), show(&b)));
        c.nontrivial = a.iter().any(|r| !is0n(r));
        let (ma, mb): (Matrix<$T, N, N>, Matrix<$T, N, N>) = (mat(&a), mat(&b));
        let prod = |i: usize, j: usize| (0..N).fold(Q::i(0), |s, k| &s + &(&a[i][k] * &b[k][j]));
        let da = det_q(&a);
        ensure!(close(&ma.det(), &da), "determinant is {}, expected {}", ma.det().q(), da);
        ensure!(close(&ma.transpose().det(), &da), "determinant of the transpose is {}, expected {}", ma.transpose().det().q(), da);
        if <$T>::EXACT {
            let dp = (&ma * &mb).det();
            ensure!(close(&dp, &(&da * &det_q(&b))), "determinant of the product is {}", dp.q());
        }
        mclose(&(&ma * &mb), &prod, "product")?;
        mclose(&(ma.clone() * mb.clone()), &prod, "product by value")?;
        let id = Matrix::<$T, N, N>::identity();
        mclose(&(&ma * &id), &|i, j| a[i][j].clone(), "product with the identity")?;
        mclose(&(&ma + &mb), &|i, j| &a[i][j] + &b[i][j], "sum")?;
        mclose(&(&ma - &mb), &|i, j| &a[i][j] - &b[i][j], "difference")?;
        mclose(&(-ma.clone()), &|i, j| -&a[i][j], "negation")?;
        ensure!((ma == mb) == (a == b), "matrix equality");
        ensure!(ma == ma.clone() && hash(&ma) == hash(&ma.clone()), "matrix differs from its clone");
        let f: Option<fn(&Matrix<$T, N, N>) -> Option<Matrix<$T, N, N>>> = $inv;
        if let Some(f) = f {
            match f(&ma) {
                None => ensure!(da.is0() || (!<$T>::EXACT && da.abs() < Q::f(1e-9)), "no inverse although the determinant is {}", da),
                Some(inv) => {
                    ensure!(!da.is0(), "inverse of a singular matrix");
                    c.label("inverse");
                    if <$T>::EXACT {
                        for p in [&ma * &inv, &inv * &ma] {
                            mclose(&p, &|i, j| Q::i((i == j) as i64), "matrix times inverse")?;
                        }
                    } else {
                        // entries are cofactors over the determinant
                        for i in 0..N {
                            for j in 0..N {
                                let e = inv[i][j].ball_center_f64() * da.to_f64();
                                let mut m = a.clone();
                                for k in 0..N { m[j][k] = Q::i((k == i) as i64); }
                                let cof = det_q(&m).to_f64();
                                ensure!((e - cof).abs() <= 1e-9 * (1.0 + cof.abs()), "inverse entry ({i},{j}) times determinant is {e}, cofactor {cof}");
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }};
}
gfn! { fn m2(c: &mut Case) -> R { square!(c, T, 2, Some(|m| m.inverse())) } }
gfn! { fn m3(c: &mut Case) -> R { square!(c, T, 3, Some(|m| m.inverse())) } }
gfn! { fn m4(c: &mut Case) -> R { square!(c, T, 4, None) } }
gfn! { fn m5(c: &mut Case) -> R { square!(c, T, 5, None) } }
gfn! {
    fn rect(c: &mut Case) -> R {
        const N: usize = 3;
        const M: usize = 4;
        let s = gen_s(c, T::EXACT);
        let a: [[Q; M]; N] = gen_mat(c, s);
        let b: [[Q; N]; M] = gen_mat(c, s);
        let (x, y): ([Q; M], [Q; N]) = (gen_pn(c, s), gen_pn(c, s));
        let k = gen_coord(c, s);
        let t = gen_t(c, T::EXACT);
        c.note(|| format!("{} A={} B={} x={} y={}", T::NAME, show(&a), show(&b), fmtv(&x), fmtv(&y)));
        c.nontrivial = a.iter().any(|r| !is0n(r));
        let (ma, mb): (Matrix<T, N, M>, Matrix<T, M, N>) = (mat(&a), mat(&b));
        let (vx, vy): (Vector<T, M>, Vector<T, N>) = (Vector(pt(&x)), Vector(pt(&y)));
        let ax = &ma * &vx;
        ensure!(closev(&ax.0, &std::array::from_fn(|i| dotn(&a[i], &x))), "matrix times vector is {}", fmtv(&unpt(&ax.0)));
        let ax = ma.clone() * vx.clone();
        ensure!(closev(&ax.0, &std::array::from_fn(|i| dotn(&a[i], &x))), "matrix times vector by value");
        mclose(&(&ma * &mb), &|i, j| (0..M).fold(Q::i(0), |s, l| &s + &(&a[i][l] * &b[l][j])), "rectangular product")?;
        mclose(&(&mb * &ma), &|i, j| (0..N).fold(Q::i(0), |s, l| &s + &(&b[i][l] * &a[l][j])), "rectangular product")?;
        mclose(&ma.transpose(), &|i, j| a[j][i].clone(), "transpose")?;
        mclose(&ma.scale(&T::of(&k)), &|i, j| &a[i][j] * &k, "scale")?;
        mclose(&Matrix::<T, N, M>::outer(&vy, &vx), &|i, j| &y[i] * &x[j], "outer product")?;
        let b2: [[Q; M]; N] = std::array::from_fn(|i| std::array::from_fn(|j| b[j][i].clone()));
        mclose(&ma.lerp(&mat(&b2), &T::of(&t)), &|i, j| &(&a[i][j] * &(&Q::i(1) - &t)) + &(&b2[i][j] * &t), "matrix lerp")?;
        mclose(&Matrix::<T, N, M>::from_cols(std::array::from_fn(|j| std::array::from_fn(|i| T::of(&a[i][j])))), &|i, j| a[i][j].clone(), "from columns")?;
        mclose(&Matrix::<T, N, M>::from_rows(std::array::from_fn(|i| std::array::from_fn(|j| T::of(&a[i][j])))), &|i, j| a[i][j].clone(), "from rows")?;
        for i in 0..N { ensure!(unpt(&ma.row(i).0) == a[i], "row {i}"); }
        for j in 0..M { ensure!(unpt(&ma.col(j).0) == std::array::from_fn::<Q, N, _>(|i| a[i][j].clone()), "column {j}"); }
        ensure!(ma.is_zero() == a.iter().all(is0n) || !T::EXACT, "matrix zero test");
        ensure!(Matrix::<T, N, M>::zero().is_zero() && Matrix::<T, N, M>::default().is_zero(), "zero matrix");
        mclose(&Matrix::<T, N, M>::splat(T::of(&k)), &|_, _| k.clone(), "splat")?;
        Ok(())
    }
}

gfn! {
    fn planes(c: &mut Case) -> R {
        let s = if T::EXACT { gen_style(c, true) } else { Style::Eighths };
        let v: Vec<[Q; 3]> = (0..3).map(|_| gen_pn::<3>(c, s)).collect();
        c.note(|| format!("{} {}", T::NAME, show(&v)));
        let n = cross3(&subn(&v[1], &v[0]), &subn(&v[2], &v[0]));
        if is0n(&n) {
            return Ok(());
        }
        c.nontrivial = true;
        let p: Vec<Point<T, 3>> = v.iter().map(|x| pt(x)).collect();
        let pl = Plane::from_points([&p[0], &p[1], &p[2]]);
        let (pn, pd) = (unpt(&pl.normal.0), pl.d.q());
        ensure!(closev(&pl.normal.0, &n), "plane normal is {}", fmtv(&pn));
        for x in &v {
            let e = &dotn(&pn, x) + &pd;
            ensure!(if T::EXACT { e.is0() } else { e.abs() < Q::f(1e-9) }, "point {} of the plane is off it by {}", fmtv(x), e);
        }
        let o = unpt(&pl.origin());
        let e = &dotn(&pn, &o) + &pd;
        ensure!(if T::EXACT { e.is0() } else { e.abs() < Q::f(1e-6) }, "plane origin {} is off the plane by {}", fmtv(&o), e);
        let (u, w) = pl.basis();
        let (uq, wq) = (unpt(&u.0), unpt(&w.0));
        ensure!(!is0n(&uq) && !is0n(&wq), "plane basis has a zero vector");
        for (x, y) in [(&uq, &pn), (&wq, &pn), (&uq, &wq)] {
            let e = dotn(x, y);
            let scale = &(&dotn(x, x) * &dotn(y, y)) + &Q::i(1);
            ensure!(if T::EXACT { e.is0() } else { &e * &e <= &scale * &Q::f(1e-18) }, "plane basis not orthogonal: {}", e);
        }
        // canonical form: the same for any three points of the plane in any order
        let cf = pl.canonicalized();
        let (cn, cd) = (unpt(&cf.normal.0), cf.d.q());
        let first = cn.iter().find(|x| !x.is0()).cloned().unwrap_or(Q::i(0));
        ensure!(if T::EXACT { first == Q::i(1) } else { (&first - &Q::i(1)).abs() < Q::f(1e-9) }, "first non-zero coefficient of the canonical plane is {}", first);
        if T::EXACT {
            for x in &v {
                ensure!((&dotn(&cn, x) + &cd).is0(), "point {} is off the canonical plane", fmtv(x));
            }
            let mut bc = || { let (a, b) = (gen_t(c, true), gen_t(c, true)); addn(&v[0], &addn(&scalen(&subn(&v[1], &v[0]), &a), &scalen(&subn(&v[2], &v[0]), &b))) };
            let q = [bc(), bc(), bc()];
            if !is0n(&cross3(&subn(&q[1], &q[0]), &subn(&q[2], &q[0]))) {
                let r: Vec<Point<T, 3>> = q.iter().map(|x| pt(x)).collect();
                let other = Plane::from_points([&r[0], &r[1], &r[2]]).canonicalized();
                ensure!(other == cf, "canonical forms of one plane differ: {} {} and {} {}", fmtv(&cn), cd, fmtv(&unpt(&other.normal.0)), other.d.q());
                ensure!(hash(&other) == hash(&cf), "canonical forms of one plane hash differently");
                c.label("same-plane");
            }
        }
        // lines in the plane
        let l = [[v[0][0].clone(), v[0][1].clone()], [v[1][0].clone(), v[1][1].clone()]];
        if l[0] != l[1] {
            let (a, b): (Point<T, 2>, Point<T, 2>) = (pt(&l[0]), pt(&l[1]));
            let ln = Plane::from_points([&a, &b]);
            let (nq, dq) = (unpt(&ln.normal.0), ln.d.q());
            ensure!(!is0n(&nq), "line normal is zero");
            let o = unpt(&ln.origin());
            for x in l.iter().chain([&o]) {
                let e = &dotn(&nq, x) + &dq;
                ensure!(if T::EXACT { e.is0() } else { e.abs() < Q::f(1e-6) }, "point {} of the line is off it by {}", fmtv(x), e);
            }
            let (t, _) = ln.basis();
            let e = dotn(&unpt(&t.0), &nq);
            ensure!(if T::EXACT { e.is0() } else { e.abs() < Q::f(1e-6) }, "line tangent not perpendicular to its normal");
        }
        // barycentric coordinates of any point of the plane
        let (a, b) = (gen_t(c, T::EXACT), gen_t(c, T::EXACT));
        let x = addn(&v[0], &addn(&scalen(&subn(&v[1], &v[0]), &a), &scalen(&subn(&v[2], &v[0]), &b)));
        match barycentric_coords(&pt::<T, 3>(&x), &p[0], &p[1], &p[2]) {
            None => ensure!(!T::EXACT, "no barycentric coordinates in a proper triangle"),
            Some((u, vv, w)) => {
                let wu = &(&Q::i(1) - &a) - &b;
                ensure!(close(&u, &wu) && close(&vv, &a) && close(&w, &b), "barycentric coordinates {} {} {}, expected {} {} {}", u.q(), vv.q(), w.q(), wu, a, b);
            }
        }
        Ok(())
    }
}

fn steps(c: &mut Case) -> R {
    let x = super::numgen::gen_f64(c, true);
    c.note(|| format!("{x:e}"));
    c.nontrivial = x != 0.0;
    if x.is_finite() {
        ensure!(f64_next_up(x) > x, "next double above {x:e} is {:e}", f64_next_up(x));
        ensure!(f64_next_down(x) < x, "next double below {x:e} is {:e}", f64_next_down(x));
        let gap = (x.abs() * 1e-15).max(f64::MIN_POSITIVE);
        ensure!(f64_next_up(x) - x <= gap && x - f64_next_down(x) <= gap, "neighbours of {x:e} are {:e} and {:e}", f64_next_down(x), f64_next_up(x));
    }
    Ok(())
}

/// Between number types nothing is lost that the target can hold.
fn casts(c: &mut Case) -> R {
    let s = gen_s(c, false);
    let a: [[Q; 4]; 3] = gen_mat(c, s);
    let mut x: [Q; 3] = gen_pn(c, s);
    match c.s.below(4) {
        0 => x = x.map(|x| x.abs()),
        1 => x = x.map(|x| -&x.abs()),
        _ => {}
    }
    c.note(|| format!("cast {} {}", show(&a), fmtv(&x)));
    c.nontrivial = !is0n(&x);
    c.label("cast");
    fn one<T: Num, U: Num + From<T>>(a: &[[Q; 4]; 3], x: &[Q; 3]) -> R {
        mclose(&mat::<T, 3, 4>(a).cast::<U>(), &|i, j| a[i][j].clone(), "matrix of another number type")?;
        let p: Point<T, 3> = pt(x);
        let q: Point<U, 3> = p.cast();
        ensure!(closev(&q, x), "point {} becomes {} from {} to {}", fmtv(x), fmtv(&unpt(&q)), T::NAME, U::NAME);
        // signs, where there is one for all coordinates
        let (pos, neg, nul) = (x.iter().all(|x| x.sgn() > 0), x.iter().all(|x| x.sgn() < 0), is0n(x));
        if pos || neg || nul {
            ensure!(q.is_zero() == nul && q.is_positive() == pos && q.is_negative() == neg, "sign of point {}", fmtv(x));
            ensure!(q.is_positive_or_zero() == !neg && q.is_negative_or_zero() == !pos, "sign of point {}", fmtv(x));
            let v = Vector(q.clone());
            ensure!(v.is_zero() == nul && v.is_positive() == pos && v.is_negative() == neg, "sign of vector {}", fmtv(x));
            ensure!(v.is_positive_or_zero() == !neg && v.is_negative_or_zero() == !pos, "sign of vector {}", fmtv(x));
        } else {
            ensure!(!q.is_zero() && !q.is_positive(), "sign of point {}", fmtv(x));
        }
        let v: Vector<U, 3> = Vector(p).cast();
        ensure!(closev(&v.0, x), "vector {} becomes {} from {} to {}", fmtv(x), fmtv(&unpt(&v.0)), T::NAME, U::NAME);
        Ok(())
    }
    one::<CgarF64, CgarRational>(&a, &x)?;
    one::<CgarF64, LazyExact>(&a, &x)?;
    one::<CgarRational, LazyExact>(&a, &x)?;
    one::<CgarRational, CgarF64>(&a, &x)?;
    one::<LazyExact, CgarRational>(&a, &x)?;
    one::<LazyExact, CgarF64>(&a, &x)
}

fn run(c: &mut Case) -> R {
    match c.s.weighted(&[4, 4, 3, 3, 4, 2, 1, 3, 4, 1, 1]) {
        10 => casts(c),
        0 => by_num!(c, vec2(c)),
        1 => by_num!(c, vec3(c)),
        2 => by_num!(c, cross(c)),
        3 => by_num!(c, m2(c)),
        4 => by_num!(c, m3(c)),
        5 => by_num!(c, m4(c)),
        6 => by_num!(c, m5(c)),
        7 => by_num!(c, rect(c)),
        8 => by_num!(c, planes(c)),
        _ => steps(c),
    }
}

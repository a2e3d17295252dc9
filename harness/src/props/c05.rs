//! Point versus segment / triangle classification.
use crate::case::{Case, R, Spec};
use crate::num::{Num, pt};
use crate::props::geogen::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::{Point, PointOps};
use cgar::geometry::segment::Segment;
use cgar::geometry::util::barycentric_coords;
use cgar::geometry::vector::{Vector, VectorOps};
use cgar::kernel::f64_kernel::F64Kernel;
use cgar::kernel::predicates::{TrianglePoint, point_in_or_on_triangle_old};
use cgar::kernel::{
    Kernel2, Kernel3, are_approximately_equal, are_collinear, are_equal, is_point_on_segment, point_in_or_on_triangle, point_u_on_segment,
    point_u_on_segment_with_tolerance, triangle_is_degenerate,
};
use cgar::numeric::cgar_f64::CgarF64;

pub const SPEC: Spec = Spec {
    id: "C05",
    rule: "segment endpoints / triangle corners are distinct and not collinear where a triangle is queried",
    quick: 600_000,
    thorough: 6_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    match c.s.below(4) {
        0 => by_num!(c, seg2(c)),
        1 => by_num!(c, seg3(c)),
        2 => by_num!(c, tri2(c)),
        _ => by_num!(c, tri3(c)),
    }
}

fn near<T: Num>(x: &T, e: &Q) -> bool {
    if T::EXACT { x.q() == *e } else { (x.q() - e.clone()).abs() <= (e.abs() + Q::i(1)) * Q::f(1e-9) }
}

macro_rules! segf {
    ($name:ident, $n:expr, $k:ident) => {
        gfn! {
        fn $name(c: &mut Case) -> R {
            let v = gen_rels::<$n>(c, T::EXACT, 3);
            if !T::EXACT && !all_short(&v) { return Ok(()); }
            let sh = format!("{} {}", T::NAME, show(&v));
            c.note(|| format!("segment {}", sh));
            seg_checks::<T, $n>(c, &v, &sh)?;
            if all_short(&v) {
                let p: Vec<Point<CgarF64, $n>> = v.iter().map(|x| pt(x)).collect();
                $k(&v, &p, &sh)?;
            }
            Ok(())
        }
        }
    };
}
segf!(seg2, 2, kern2);
segf!(seg3, 3, kern3);

fn kern2(v: &[V2], p: &[Point<CgarF64, 2>], sh: &str) -> R {
    let s = Segment::new(&p[0], &p[1]);
    if v[0] != v[1] {
        ensure!(F64Kernel::are_collinear2(&p[0], &p[1], &p[2]) == collinear(&v[0], &v[1], &v[2]), "double kernel collinearity of {}", sh);
        ensure!(F64Kernel::is_point_on_segment2(&p[2], &s) == on_segment(&v[2], &v[0], &v[1]), "double kernel point-on-segment of {}", sh);
        ensure!(F64Kernel::point_u_on_segment2(&p[0], &p[1], &p[2]).is_some() == on_segment(&v[2], &v[0], &v[1]), "double kernel segment parameter of {}", sh);
    }
    ensure!(F64Kernel::are_equal2(&p[0], &p[1]) == (v[0] == v[1]), "double kernel equality of {}", sh);
    Ok(())
}
fn kern3(v: &[V3], p: &[Point<CgarF64, 3>], sh: &str) -> R {
    let s = Segment::new(&p[0], &p[1]);
    if v[0] != v[1] {
        ensure!(F64Kernel::are_collinear3(&p[0], &p[1], &p[2]) == collinear(&v[0], &v[1], &v[2]), "double kernel collinearity of {}", sh);
        ensure!(F64Kernel::is_point_on_segment3(&p[2], &s) == on_segment(&v[2], &v[0], &v[1]), "double kernel point-on-segment of {}", sh);
        ensure!(F64Kernel::point_u_on_segment3(&p[0], &p[1], &p[2]).is_some() == on_segment(&v[2], &v[0], &v[1]), "double kernel segment parameter of {}", sh);
    }
    ensure!(F64Kernel::are_equal3(&p[0], &p[1]) == (v[0] == v[1]), "double kernel equality of {}", sh);
    Ok(())
}

fn seg_checks<T: Num, const N: usize>(c: &mut Case, v: &[[Q; N]], sh: &str) -> R
where
    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
    Vector<T, N>: VectorOps<T, N>,
    for<'a> &'a T: std::ops::Sub<&'a T, Output = T> + std::ops::Mul<&'a T, Output = T> + std::ops::Add<&'a T, Output = T> + std::ops::Div<&'a T, Output = T>,
{
    let (qa, qb, qp) = (&v[0], &v[1], &v[2]);
    let a: Point<T, N> = pt(qa);
    let b: Point<T, N> = pt(qb);
    let p: Point<T, N> = pt(qp);
    ensure!(are_equal(&a, &b) == (qa == qb), "equality of {}", sh);
    ensure!(are_equal(&a, &p) == (qa == qp), "equality of {}", sh);
    // approximate equality has a fixed threshold per coordinate
    let big = (0..N).any(|i| (&qa[i] - &qp[i]).abs() > Q::f(1.01e-6));
    if big {
        ensure!(!are_approximately_equal(&a, &p), "points {} reported as approximately equal", sh);
    } else if qa == qp {
        ensure!(are_approximately_equal(&a, &p), "equal points {} not approximately equal", sh);
    }
    let col = collinear(qa, qb, qp);
    let deg = col;
    ensure!(triangle_is_degenerate(&a, &b, &p) == deg, "degeneracy of triangle {} expected {}", sh, deg);
    if qa == qb {
        // a segment without length is one point
        c.label("point-segment");
        ensure!(is_point_on_segment(&p, &Segment::new(&a, &b)) == (qa == qp), "point-on-segment of {} expected {}", sh, qa == qp);
        ensure!(point_u_on_segment(&a, &b, &p).is_some() == (qa == qp), "segment parameter of {} expected {}", sh, qa == qp);
        let tol = Q::nd(1 + c.s.below(8) as i64, 4);
        let (dd, t2) = (d2(qa, qp), &tol * &tol);
        if T::EXACT || (&dd - &t2).abs() > Q::f(1e-8) {
            let g = point_u_on_segment_with_tolerance(&a, &b, &p, &T::of(&tol)).is_some();
            ensure!(g == (dd <= t2), "distance test of {} tolerance {:?}: {} expected {}", sh, tol, g, dd <= t2);
        }
        return Ok(());
    }
    c.nontrivial = true;
    ensure!(are_collinear(&a, &b, &p) == col, "collinearity of {} expected {}", sh, col);
    let on = on_segment(qp, qa, qb);
    if on {
        c.label("on-segment");
    } else if col {
        c.label("on-line");
    }
    for (s, e) in [(&a, &b), (&b, &a)] {
        let g = is_point_on_segment(&p, &Segment::new(s, e));
        ensure!(g == on, "point-on-segment of {} is {} expected {}", sh, g, on);
    }
    let ab = subn(qb, qa);
    let l2 = dotn(&ab, &ab);
    let u = dotn(&subn(qp, qa), &ab) / l2;
    match point_u_on_segment(&a, &b, &p) {
        Some(x) => ensure!(on && near(&x, &u), "segment parameter of {} is {:?} expected {:?} (on segment: {})", sh, x.q(), u, on),
        None => ensure!(!on, "segment parameter of {} missing", sh),
    }
    // within a tolerance
    let tol = Q::nd(1 + c.s.below(8) as i64, 4);
    let uc = qmin(&qmax(&u, &Q::zero()), &Q::i(1));
    let dd = d2(qp, &lerpn(qa, qb, &uc));
    let t2 = &tol * &tol;
    let gap = (&dd - &t2).abs();
    let g = point_u_on_segment_with_tolerance(&a, &b, &p, &T::of(&tol));
    if T::EXACT || gap > Q::f(1e-8) {
        ensure!(g.is_some() == (dd <= t2), "distance test of {} tolerance {:?}: {} expected {}", sh, tol, g.is_some(), dd <= t2);
    }
    if let Some(x) = g {
        // the parameter of the closest point of the line (callers clamp)
        let xc = qmin(&qmax(&x.q(), &Q::zero()), &Q::i(1));
        ensure!((xc.clone() - uc.clone()).abs() <= if T::EXACT { Q::zero() } else { Q::f(1e-9) }, "closest parameter of {} is {:?} expected {:?}", sh, xc, uc);
    }
    Ok(())
}

fn code(t: &TrianglePoint) -> u8 {
    match t {
        TrianglePoint::Off => 0,
        TrianglePoint::In => 1,
        TrianglePoint::OnEdge => 2,
        TrianglePoint::OnVertex => 3,
    }
}
const NAMES: [&str; 4] = ["outside", "inside", "on-edge", "on-vertex"];

gfn! {
fn tri2(c: &mut Case) -> R {
    let v = gen_rels::<2>(c, T::EXACT, 4);
    if !T::EXACT && !all_short(&v) { return Ok(()); }
    let sh = format!("{} {}", T::NAME, show(&v));
    c.note(|| format!("triangle+point {}", sh));
    let p: Vec<Point<T, 2>> = v.iter().map(|x| pt(x)).collect();
    let area = orient2(&v[0], &v[1], &v[2]);
    if area.is0() {
        let g = point_in_or_on_triangle(&p[3], &p[0], &p[1], &p[2]);
        ensure!(code(&g) == 0, "point in zero-area triangle {}", sh);
        return Ok(());
    }
    c.nontrivial = true;
    let e = in_tri2(&v[3], &v[0], &v[1], &v[2]);
    c.label(NAMES[e as usize]);
    let pm = c.s.perm(3);
    let g = point_in_or_on_triangle(&p[3], &p[pm[0]], &p[pm[1]], &p[pm[2]]);
    ensure!(code(&g) == e, "triangle classification of {} is {:?} expected {}", sh, g, NAMES[e as usize]);
    let g = point_in_or_on_triangle_old(&p[3], &p[pm[0]], &p[pm[1]], &p[pm[2]]);
    ensure!(code(&g) == e, "triangle classification (barycentric) of {} is {:?} expected {}", sh, g, NAMES[e as usize]);
    // barycentric coordinates reproduce the point
    match barycentric_coords(&p[3], &p[0], &p[1], &p[2]) {
        None => { if T::EXACT || area.abs() > Q::f(1e-3) { return Err(format!("no barycentric coordinates for {}", sh)); } }
        Some((u, w, x)) => {
            let want = [orient2(&v[1], &v[2], &v[3]) / area.clone(), orient2(&v[2], &v[0], &v[3]) / area.clone(), orient2(&v[0], &v[1], &v[3]) / area.clone()];
            ensure!(near(&u, &want[0]) && near(&w, &want[1]) && near(&x, &want[2]), "barycentric coordinates of {}: {:?},{:?},{:?} expected {:?}", sh, u.q(), w.q(), x.q(), want);
        }
    }
    Ok(())
}
}

gfn! {
fn tri3(c: &mut Case) -> R {
    let mut v = gen_rels::<3>(c, T::EXACT, 3);
    if collinear(&v[0], &v[1], &v[2]) {
        if !T::EXACT && !all_short(&v) { return Ok(()); }
        let p: Vec<Point<T, 3>> = v.iter().map(|x| pt(x)).collect();
        let g = point_in_or_on_triangle(&p[0], &p[0], &p[1], &p[2]);
        ensure!(code(&g) == 0, "point in zero-area triangle {}", show(&v));
        return Ok(());
    }
    // a point of the triangle's plane
    let s = gen_t(c, T::EXACT);
    let t = gen_t(c, T::EXACT);
    let pm = c.s.perm(3);
    let m = lerpn(&v[pm[0]], &v[pm[1]], &s);
    let q = lerpn(&m, &v[pm[2]], &t);
    v.push(q);
    if !T::EXACT && !all_short(&v) { return Ok(()); }
    let sh = format!("{} {}", T::NAME, show(&v));
    c.note(|| format!("triangle+point {}", sh));
    c.nontrivial = true;
    let p: Vec<Point<T, 3>> = v.iter().map(|x| pt(x)).collect();
    let e = in_tri3(&v[3], &v[0], &v[1], &v[2]);
    c.label(NAMES[e as usize]);
    let pm = c.s.perm(3);
    let g = point_in_or_on_triangle(&p[3], &p[pm[0]], &p[pm[1]], &p[pm[2]]);
    ensure!(code(&g) == e, "triangle classification of {} is {:?} expected {}", sh, g, NAMES[e as usize]);
    let g = point_in_or_on_triangle_old(&p[3], &p[pm[0]], &p[pm[1]], &p[pm[2]]);
    ensure!(code(&g) == e, "triangle classification (barycentric) of {} is {:?} expected {}", sh, g, NAMES[e as usize]);
    let n = cross3(&subn(&v[1], &v[0]), &subn(&v[2], &v[0]));
    match barycentric_coords(&p[3], &p[0], &p[1], &p[2]) {
        None => { if T::EXACT || dotn(&n, &n) > Q::f(1e-3) { return Err(format!("no barycentric coordinates for {}", sh)); } }
        Some((u, w, x)) => {
            let want = bary3(&v[3], &v[0], &v[1], &v[2]);
            ensure!(near(&u, &want[0]) && near(&w, &want[1]) && near(&x, &want[2]), "barycentric coordinates of {}: {:?},{:?},{:?} expected {:?}", sh, u.q(), w.q(), x.q(), want);
        }
    }
    Ok(())
}
}

//! Triangle-triangle intersection against an exact clip.
use crate::case::{Case, R, Spec};
use crate::num::{Num, pt};
use crate::props::c06::close;
use crate::props::geogen::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::point::Point;
use cgar::geometry::segment::Segment;
use cgar::geometry::tri_tri_intersect::*;

pub const SPEC: Spec = Spec {
    id: "C07",
    rule: "both triangles have positive area and their bounding boxes touch",
    quick: 300_000,
    thorough: 3_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

/// Exact intersection of two closed triangles: convex point set given by its extreme points
/// (0, 1, 2 or >= 3 of them; for >= 3 they are in cyclic order).
pub fn tri_tri(p: &[V3; 3], q: &[V3; 3]) -> (bool, Vec<V3>) {
    let n = cross3(&subn(&q[1], &q[0]), &subn(&q[2], &q[0]));
    let dist = |x: &V3| dotn(&n, &subn(x, &q[0]));
    let d: Vec<Q> = p.iter().map(|x| dist(x)).collect();
    let coplanar = d.iter().all(|x| x.is0());
    // part of p in the plane of q
    let mut poly: Vec<V3> = vec![];
    if coplanar {
        poly = p.to_vec();
    } else {
        for i in 0..3 {
            let j = (i + 1) % 3;
            if d[i].is0() {
                poly.push(p[i].clone());
            }
            if d[i].sgn() * d[j].sgn() < 0 {
                let t = &d[i] / &(&d[i] - &d[j]);
                poly.push(lerpn(&p[i], &p[j], &t));
            }
        }
    }
    // clip with the three edges of q
    for i in 0..3 {
        let e = cross3(&n, &subn(&q[(i + 1) % 3], &q[i]));
        let f = |x: &V3| dotn(&e, &subn(x, &q[i]));
        let m = poly.len();
        let mut out: Vec<V3> = vec![];
        for k in 0..m {
            let (a, b) = (&poly[k], &poly[(k + 1) % m]);
            let (fa, fb) = (f(a), f(b));
            if fa.sgn() >= 0 {
                out.push(a.clone());
            }
            if fa.sgn() * fb.sgn() < 0 {
                let t = &fa / &(&fa - &fb);
                out.push(lerpn(a, b, &t));
            }
        }
        poly = vec![];
        for x in out {
            if !poly.contains(&x) {
                poly.push(x);
            }
        }
    }
    // drop points inside an edge
    loop {
        let m = poly.len();
        if m < 3 {
            break;
        }
        match (0..m).find(|&k| on_segment(&poly[k], &poly[(k + m - 1) % m], &poly[(k + 1) % m])) {
            Some(k) => {
                poly.remove(k);
            }
            None => break,
        }
    }
    (coplanar, poly)
}

fn seg_ok<T: Num>(s: &Segment<T, 3>, e: &[V3]) -> bool {
    ends_ok(&s.a, &s.b, e)
}
fn ends_ok<T: Num>(a: &Point<T, 3>, b: &Point<T, 3>, e: &[V3]) -> bool {
    match e.len() {
        1 => close(a, &e[0]) && close(b, &e[0]),
        2 => (close(a, &e[0]) && close(b, &e[1])) || (close(a, &e[1]) && close(b, &e[0])),
        _ => false,
    }
}
/// do the segments form one closed loop through exactly the corners of the polygon (points inside an edge allowed)?
fn loop_ok<T: Num>(segs: &[(&Point<T, 3>, &Point<T, 3>)], e: &[V3]) -> bool {
    let m = segs.len();
    if m < 3 || e.len() < 3 {
        return false;
    }
    for k in 0..m {
        let nx = crate::num::unpt(segs[(k + 1) % m].0);
        if !close(segs[k].1, &nx) {
            return false;
        }
    }
    // map start points to corners in order
    let mut idx: Vec<usize> = vec![];
    for (a, _) in segs {
        match e.iter().position(|x| close(a, x)) {
            Some(i) => idx.push(i),
            None => return false,
        }
    }
    if idx.len() != e.len() {
        return false;
    }
    let n = e.len();
    let step = (idx[1] + n - idx[0]) % n;
    (step == 1 || step == n - 1) && (0..n).all(|k| (idx[(k + 1) % n] + n - idx[k]) % n == step)
}

fn gen_pair(c: &mut Case, exact: bool) -> Vec<V3> {
    let s = if exact { [Style::SmallInt, Style::Rational, Style::Eighths][c.s.below(3)] } else { Style::SmallInt };
    let mut v: Vec<V3> = (0..3).map(|_| gen_pn(c, s)).collect();
    match c.s.below(5) {
        0 => {
            for _ in 0..3 {
                v.push(gen_pn(c, s));
            }
        }
        1 => {
            for _ in 0..3 {
                let p = gen_rel(c, s, exact, &v[..]);
                v.push(p);
            }
        }
        2 => {
            // coplanar with the first
            for _ in 0..3 {
                let (t, u) = (gen_t(c, exact), gen_t(c, exact));
                let pm = c.s.perm(3);
                let m = lerpn(&v[pm[0]], &v[pm[1]], &t);
                v.push(lerpn(&m, &v[pm[2]], &u));
            }
        }
        3 => {
            // pierces: two points around a point of the first triangle's plane
            let (t, u) = (gen_t(c, exact), gen_t(c, exact));
            let pm = c.s.perm(3);
            let m = lerpn(&v[pm[0]], &v[pm[1]], &t);
            let m = lerpn(&m, &v[pm[2]], &u);
            let d: V3 = gen_pn(c, Style::SmallInt);
            v.push(subn(&m, &scalen(&d, &Q::i(c.s.below(3) as i64))));
            v.push(addn(&m, &scalen(&d, &Q::i(c.s.below(3) as i64))));
            let p = gen_rel(c, s, exact, &v[..]);
            v.push(p);
        }
        _ => {
            // shares one or two corners
            let k = 1 + c.s.below(2);
            for i in 0..k {
                let x = v[i].clone();
                v.push(x);
            }
            while v.len() < 6 {
                let p = gen_rel(c, s, exact, &v[..]);
                v.push(p);
            }
        }
    }
    let p1 = c.s.perm(3);
    let p2 = c.s.perm(3);
    let mut out: Vec<V3> = p1.iter().map(|&i| v[i].clone()).collect();
    out.extend(p2.iter().map(|&i| v[3 + i].clone()));
    if c.s.bool() {
        out.rotate_left(3);
    }
    out
}
fn short16(p: &V3) -> bool {
    p.iter().all(|x| {
        let y = x * &Q::i(16);
        *y.0.denom() == 1 && x.abs() < Q::i(64)
    })
}
fn boxes(v: &[V3]) -> bool {
    (0..3).all(|i| {
        let mn = |s: &[V3]| s.iter().map(|p| p[i].clone()).min().unwrap();
        let mx = |s: &[V3]| s.iter().map(|p| p[i].clone()).max().unwrap();
        mn(&v[..3]) <= mx(&v[3..]) && mn(&v[3..]) <= mx(&v[..3])
    })
}

gfn! {
fn contact_ok(x: &Point<T, 3>, k: &ContactOnTri<T>, tri: &[V3]) -> bool {
    let (a, b, d) = (&tri[0], &tri[1], &tri[2]);
    match k {
        ContactOnTri::Vertex(i) => *i < 3 && close(x, &tri[*i]),
        ContactOnTri::Edge { e, u } => {
            let u = u.q();
            let eps = if T::EXACT { Q::zero() } else { Q::f(1e-9) };
            e.0 < 3 && e.1 < 3 && e.0 != e.1 && u >= -eps.clone() && u <= Q::i(1) + eps && close(x, &lerpn(&tri[e.0], &tri[e.1], &u))
        }
        ContactOnTri::Interior { bary } => {
            let (u, v, w) = (bary.0.q(), bary.1.q(), bary.2.q());
            let y = addn(&addn(&scalen(a, &u), &scalen(b, &v)), &scalen(d, &w));
            u.sgn() > 0 && v.sgn() > 0 && w.sgn() > 0 && close(x, &y)
        }
    }
}
}

gfn! {
fn go(c: &mut Case) -> R {
    let v = gen_pair(c, T::EXACT);
    if !T::EXACT && !v.iter().all(short16) { return Ok(()); }
    let p: [V3; 3] = [v[0].clone(), v[1].clone(), v[2].clone()];
    let q: [V3; 3] = [v[3].clone(), v[4].clone(), v[5].clone()];
    if collinear(&p[0], &p[1], &p[2]) || collinear(&q[0], &q[1], &q[2]) { return Ok(()); }
    let (cop, e) = tri_tri(&p, &q);
    // points closer than the merge threshold are identified by design
    let lim = Q::f(1e-11);
    for i in 0..e.len() { for j in 0..i { if d2(&e[i], &e[j]) < lim { c.label("below merge threshold"); return Ok(()); } } }
    let sh = format!("{} {}", T::NAME, show(&v));
    c.note(|| format!("triangles {}", sh));
    c.nontrivial = boxes(&v);
    c.label(match (cop, e.len()) { (false, 0) => "disjoint", (true, 0) => "coplanar disjoint", (false, 1) => "point", (true, 1) => "coplanar point", (false, _) => "segment", (true, 2) => "coplanar segment", _ => "coplanar polygon" });
    let g: Vec<Point<T, 3>> = v.iter().map(|x| pt(x)).collect();
    let a = [&g[0], &g[1], &g[2]];
    let b = [&g[3], &g[4], &g[5]];
    let pa = TriPrecomp::new(&a);
    let pb = TriPrecomp::new(&b);
    ensure!(!pa.degenerate && !pb.degenerate, "triangle of {} treated as degenerate", sh);
    for (w, r) in [("plain", tri_tri_intersection(&a, &b)), ("precomputed", tri_tri_intersection_with_precomp(&a, &b, &pa, &pb)), ("precomputed-first", tri_tri_intersection_with_precomp_p(&a, &b, &pa))] {
        let ok = match &r {
            TriTriIntersectionResult::None => e.is_empty(),
            TriTriIntersectionResult::Proper(s) => !cop && seg_ok(s, &e),
            TriTriIntersectionResult::Coplanar(s) => seg_ok(s, &e),
            TriTriIntersectionResult::CoplanarPolygon(s) => cop && loop_ok(&s.iter().map(|x| (&x.a, &x.b)).collect::<Vec<_>>(), &e),
        };
        ensure!(ok, "intersection ({}) of {} is {:?} expected {}", w, sh, r, show(&e));
    }
    let r = tri_tri_intersection_with_precomp_detailed(&a, &b, &pa, &pb);
    let r2 = tri_tri_intersection_detailed(&a, &b);
    for r in [r, r2] {
        let mut ends: Vec<&EndpointInfo<T, 3>> = vec![];
        let ok = match &r {
            TriTriIntersectionDetailed::None => e.is_empty(),
            TriTriIntersectionDetailed::Proper { ends: x } => { ends.extend(x.iter()); !cop && ends_ok(&x[0].point, &x[1].point, &e) }
            TriTriIntersectionDetailed::Coplanar { segs } => {
                for s in segs { ends.extend(s.iter()); }
                if segs.len() == 1 { ends_ok(&segs[0][0].point, &segs[0][1].point, &e) }
                else { cop && loop_ok(&segs.iter().map(|s| (&s[0].point, &s[1].point)).collect::<Vec<_>>(), &e) }
            }
        };
        ensure!(ok, "detailed intersection of {} is {:?} expected {}", sh, r, show(&e));
        for x in ends {
            ensure!(contact_ok(&x.point, &x.on_p, &v[..3]), "contact on first triangle of {}: {:?} at {:?}", sh, x.on_p, x.point);
            ensure!(contact_ok(&x.point, &x.on_q, &v[3..]), "contact on second triangle of {}: {:?} at {:?}", sh, x.on_q, x.point);
        }
    }
    Ok(())
}
}

//! Booleans of closed meshes against exact point membership and volumes.
use super::c07::tri_tri;
use super::c23::refine;
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::boolean::BooleanOp;

pub const SPEC: Spec = Spec {
    id: "C01",
    rule: "the two surfaces cross in general position and the result was compared with the exact set operation",
    quick: 30_000,
    thorough: 250_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

/// A closed surface with cached doubles, for fast exact point location.
pub struct Solid {
    pub p: Vec<V3>,
    pub t: Vec<[usize; 3]>,
    f: Vec<[f64; 3]>,
    scale: f64,
}

fn vf(p: &V3) -> [f64; 3] {
    std::array::from_fn(|k| p[k].to_f64())
}
fn subf(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    std::array::from_fn(|k| a[k] - b[k])
}
fn crossf(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dotf(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

impl Solid {
    pub fn new(p: Vec<V3>, t: Vec<[usize; 3]>) -> Solid {
        let f: Vec<[f64; 3]> = p.iter().map(vf).collect();
        let scale = f.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
        Solid { p, t, f, scale }
    }
    pub fn vol6(&self) -> Q {
        vol6(&self.p, &self.t)
    }
    /// winding number, or None when the point is on the surface
    pub fn winding(&self, q: &V3) -> Option<i32> {
        'dir: for k in 0i64..60 {
            let d: V3 = [Q::nd(k * k + 3, 17), Q::nd(5 + 3 * k, 13), Q::i(1 + k * k * k)];
            let e = addn(q, &d);
            let (qf, df) = (vf(q), vf(&d));
            let dn = dotf(&df, &df).sqrt();
            let s = self.scale.max(qf.iter().fold(0.0f64, |m, x| m.max(x.abs())));
            let err = 1e-12 * s * s * dn;
            let mut w = 0;
            for t in &self.t {
                let r = t.map(|v| subf(&self.f[v], &qf));
                let mut sg = [0i8; 3];
                for i in 0..3 {
                    let (a, b) = (i, (i + 1) % 3);
                    let v = dotf(&df, &crossf(&r[a], &r[b]));
                    sg[i] = if v > err { 1 } else if v < -err { -1 } else { orient3(q, &e, &self.p[t[a]], &self.p[t[b]]).sgn() };
                }
                if sg.contains(&1) && sg.contains(&-1) {
                    continue;
                }
                let [a, b, c] = t.map(|v| &self.p[v]);
                if sg.contains(&0) {
                    if in_tri3(q, a, b, c) != 0 {
                        return None;
                    }
                    continue 'dir;
                }
                let n = cross3(&subn(b, a), &subn(c, a));
                let x = dotn(&subn(a, q), &n);
                if x.is0() {
                    return None;
                }
                let den = dotn(&d, &n).sgn();
                if x.sgn() == den {
                    w += den as i32;
                }
            }
            return Some(w);
        }
        None
    }
    /// a plane of some face passes within `eps` of the point
    fn near(&self, q: &V3, eps: f64) -> bool {
        let qf = vf(q);
        self.t.iter().any(|t| {
            let [a, b, c] = t.map(|v| self.f[v]);
            let n = crossf(&subf(&b, &a), &subf(&c, &a));
            let l = dotf(&n, &n).sqrt();
            l == 0.0 || (dotf(&n, &subf(&qf, &a)) / l).abs() < eps
        })
    }
    /// smallest altitude of a face, measured against its longest edge
    pub fn thinnest(&self) -> f64 {
        self.t.iter().fold(f64::MAX, |m, t| {
            let [a, b, c] = t.map(|v| self.f[v]);
            let n = crossf(&subf(&b, &a), &subf(&c, &a));
            let long = [(a, b), (b, c), (c, a)].iter().fold(0.0f64, |m, (x, y)| m.max(dotf(&subf(x, y), &subf(x, y))));
            m.min(dotf(&n, &n).sqrt() / long)
        })
    }
    fn bbox(&self, t: &[usize; 3]) -> ([f64; 3], [f64; 3]) {
        let mut lo = self.f[t[0]];
        let mut hi = lo;
        for v in &t[1..] {
            for k in 0..3 {
                lo[k] = lo[k].min(self.f[*v][k]);
                hi[k] = hi[k].max(self.f[*v][k]);
            }
        }
        (lo, hi)
    }
}

fn apart(a: &([f64; 3], [f64; 3]), b: &([f64; 3], [f64; 3]), gap: f64) -> bool {
    (0..3).any(|k| a.1[k] + gap < b.0[k] || b.1[k] + gap < a.0[k])
}

pub struct Margin {
    bary: i64,
    near: f64,
    rel: bool,
}

/// what a triangulation of the faces in floating point can be trusted with
pub const COARSE: Margin = Margin { bary: 2048, near: 2e-4, rel: true };
/// well above the resolution of the triangulation, which tells no points apart below some 1e-5 of a face
pub const MIDDLE: Margin = Margin { bary: 1 << 13, near: 1e-4, rel: true };
/// just above the merging of points
pub const FINE: Margin = Margin { bary: 1 << 17, near: 2e-5, rel: false };

/// Exact segments in which pairs of faces meet: (face of a, face of b, ends). None unless the surfaces
/// are in general position with a margin: no vertex of one near a face of the other, no edge near an edge.
/// The margin is in barycentric coordinates; `near` is the distance between different points of the curve,
/// at the scale of the surfaces when `rel`.
pub fn crossings(a: &Solid, b: &Solid, margin: &Margin) -> Option<Vec<(usize, usize, [V3; 2])>> {
    let m = Q::nd(1, margin.bary);
    let one = Q::i(1);
    let bb: Vec<_> = b.t.iter().map(|t| b.bbox(t)).collect();
    let mut out = vec![];
    for (i, ta) in a.t.iter().enumerate() {
        let ab = a.bbox(ta);
        for (j, tb) in b.t.iter().enumerate() {
            if apart(&ab, &bb[j], 0.05) {
                continue;
            }
            let pa = ta.map(|v| a.p[v].clone());
            let pb = tb.map(|v| b.p[v].clone());
            for (x, y) in [(&pa, &pb), (&pb, &pa)] {
                let n = cross3(&subn(&y[1], &y[0]), &subn(&y[2], &y[0]));
                for k in 0..3 {
                    let (s, e) = (&x[k], &x[(k + 1) % 3]);
                    let d = subn(e, s);
                    let den = dotn(&n, &d);
                    if den.is0() {
                        continue;
                    }
                    let t = &dotn(&n, &subn(&y[0], s)) / &den;
                    if t < -&m || t > &one + &m {
                        continue;
                    }
                    let w = bary3(&addn(s, &scalen(&d, &t)), &y[0], &y[1], &y[2]);
                    if w.iter().any(|x| *x < -&m) {
                        continue;
                    }
                    if t < m || t > &one - &m || w.iter().any(|x| *x < m) {
                        return None;
                    }
                }
            }
            let (flat, ends) = tri_tri(&pa, &pb);
            if flat || ends.len() == 1 || ends.len() > 2 {
                return None;
            }
            if let [s, e] = &ends[..] {
                out.push((i, j, [s.clone(), e.clone()]));
            }
        }
    }
    // points of the curve are told apart easily, at the scale of the faces they cut
    let size = |p: &[V3]| (0..3).map(|k| { let v = p.iter().map(|x| x[k].to_f64()); v.clone().fold(f64::MIN, f64::max) - v.fold(f64::MAX, f64::min) }).fold(0.0, f64::max);
    let near = margin.near * if margin.rel { size(&a.p).max(size(&b.p)).max(5.0) } else { 1.0 };
    let ends: Vec<[f64; 3]> = out.iter().flat_map(|(_, _, e)| [vf(&e[0]), vf(&e[1])]).collect();
    for (i, p) in ends.iter().enumerate() {
        for q in &ends[..i] {
            let d = subf(p, q);
            let d = dotf(&d, &d).sqrt();
            if d > 1e-9 && d < near {
                return None;
            }
        }
    }
    Some(out)
}

/// one closed solid, possibly of several pieces or with a cavity
pub fn gen_operand(c: &mut Case, exact: bool) -> Soup<3> {
    let big = c.s.chance(1, 2);
    let mut s = gen_closed(c, big, exact);
    if c.s.chance(1, 8) {
        // a second piece beside the first
        let mut t = gen_closed(c, false, exact);
        let hi = s.p.iter().map(|p| p[0].clone()).max().unwrap();
        let lo = t.p.iter().map(|p| p[0].clone()).min().unwrap();
        let dx = &(&hi - &lo) + &Q::nd(1, 2);
        for p in t.p.iter_mut() {
            p[0] = &p[0] + &dx;
        }
        s.append(&t);
        c.label("two-pieces");
    } else if c.s.chance(1, 8) {
        // a box with a box-shaped cavity
        let d = std::array::from_fn(|_| c.s.bool());
        s = cuboid(&[Q::i(0), Q::i(0), Q::i(0)], &[Q::i(4), Q::i(4), Q::i(4)], &d);
        let mut t = cuboid(&[Q::i(1), Q::i(1), Q::i(1)], &[Q::i(3), Q::i(3), Q::i(3)], &d);
        for x in t.t.iter_mut() {
            *x = flip(*x);
        }
        s.append(&t);
        c.label("cavity");
    }
    s
}

/// move b so that it overlaps a, off a's grid
pub fn place(c: &mut Case, a: &[V3], b: &mut Soup<3>, exact: bool) {
    let va = c.s.below(a.len());
    let vb = c.s.below(b.p.len());
    let wb = c.s.below(b.p.len());
    let from = lerpn(&b.p[vb], &b.p[wb], &Q::nd(1, 2));
    let sc = [Q::i(1), Q::nd(1, 2), Q::i(2)][c.s.weighted(&[3, 1, 1])].clone();
    let off: V3 = std::array::from_fn(|_| {
        let n = c.s.int(-28, 28);
        if exact && c.s.bool() { Q::nd(4 * n + 1, 61) } else { Q::nd(2 * n + 1, 64) }
    });
    let mut to = addn(&a[va], &off);
    if exact && c.s.chance(1, 4) {
        // barely reaching over something
        let wa = c.s.below(a.len());
        let at = lerpn(&a[va], &a[wa], &Q::nd(c.s.int(0, 2), 2));
        let tiny: V3 = std::array::from_fn(|_| Q::nd(2 * c.s.int(-40, 40) + 1, if c.s.bool() { 1 << 16 } else { 1 << 14 }));
        to = addn(&at, &tiny);
        c.label("close");
    }
    for p in b.p.iter_mut() {
        *p = addn(&scalen(&subn(p, &from), &sc), &to);
    }
}

fn member(op: &BooleanOp, a: bool, b: bool) -> bool {
    match op {
        BooleanOp::Union => a || b,
        BooleanOp::Intersection => a && b,
        BooleanOp::Difference => a && !b,
    }
}

pub fn solid<T: Num>(m: &Mesh<T, 3>) -> Result<Solid, String> {
    let t = audit(m, Borders::Linked)?;
    let p = m.vertices.iter().map(|v| unpt(&v.position)).collect();
    Ok(Solid::new(p, t))
}

/// Every vertex of a result belongs to one of its triangles.
pub fn tidy<T: Num, const N: usize>(m: &Mesh<T, N>, t: &[[usize; 3]]) -> R {
    let mut used = vec![false; m.vertices.len()];
    for v in t.iter().flatten() { used[*v] = true; }
    let spare = (0..used.len()).filter(|v| !used[*v] && !m.vertices[*v].removed).count();
    ensure!(spare == 0, "{spare} vertices of the result belong to no triangle");
    Ok(())
}

pub fn pick_op(c: &mut Case) -> BooleanOp {
    match c.s.below(3) {
        0 => BooleanOp::Union,
        1 => BooleanOp::Intersection,
        _ => BooleanOp::Difference,
    }
}

pub fn close_vol(exact: bool, x: &Q, y: &Q, scale: &Q) -> bool {
    if exact { x == y } else { (x - y).abs() <= &(&scale.abs() + &Q::i(1)) * &Q::nd(1, 1_000_000) }
}

/// compare a result with the exact answer
fn judge(c: &mut Case, exact: bool, op: &BooleanOp, a: &Solid, b: &Solid, r: &Solid) -> R {
    ensure!(is_closed(&r.t), "{op:?}: the result is not closed");
    ensure!(vertex_manifold(&r.t), "{op:?}: the result is not a manifold");
    // every triangle lies on one operand, on the right side of the other, facing the right way
    if exact {
        for t in &r.t {
            let [p, q, s] = t.map(|v| r.p[v].clone());
            let mid = scalen(&addn(&addn(&p, &q), &s), &Q::nd(1, 3));
            let n = cross3(&subn(&q, &p), &subn(&s, &p));
            ensure!(!is0n(&n), "{op:?}: triangle without area at {} {} {}", fmtv(&p), fmtv(&q), fmtv(&s));
            let mut found = 0;
            let mf = vf(&mid);
            for (own, other, first) in [(a, b, true), (b, a, false)] {
                for u in &own.t {
                    let bx = own.bbox(u);
                    if apart(&bx, &(mf, mf), 1e-6) {
                        continue;
                    }
                    let [x, y, z] = u.map(|v| &own.p[v]);
                    if in_tri3(&mid, x, y, z) == 0 {
                        continue;
                    }
                    found += 1;
                    for (w, name) in [(&p, "first"), (&q, "second"), (&s, "third")] {
                        ensure!(in_tri3(w, x, y, z) != 0, "{op:?}: {name} corner {} of a result triangle leaves the operand's face", fmtv(w));
                    }
                    let same = dotn(&n, &cross3(&subn(y, x), &subn(z, x))).sgn() > 0;
                    let flipped = matches!(op, BooleanOp::Difference) && !first;
                    ensure!(same != flipped, "{op:?}: result triangle at {} faces the wrong way", fmtv(&mid));
                    let inside = other.winding(&mid).ok_or("degenerate sample")? != 0;
                    let keep = match op {
                        BooleanOp::Union => !inside,
                        BooleanOp::Intersection => inside,
                        BooleanOp::Difference => inside != first,
                    };
                    ensure!(keep, "{op:?}: result contains a triangle at {} that belongs to the other part", fmtv(&mid));
                }
            }
            ensure!(found == 1, "{op:?}: result triangle at {} lies on {found} faces of the operands", fmtv(&mid));
        }
    }
    // membership near every face of both operands
    let mut samples: Vec<V3> = vec![];
    for s in [a, b] {
        let step = 1 + s.t.len() / 12;
        let start = c.s.below(step);
        for t in s.t.iter().skip(start).step_by(step) {
            let [x, y, z] = t.map(|v| &s.p[v]);
            let (i, j) = (c.s.int(1, 6), c.s.int(1, 6));
            let k = c.s.int(1, 6);
            let sum = i + j + k;
            let p: V3 = std::array::from_fn(|m| &(&(&x[m] * &Q::nd(i, sum)) + &(&y[m] * &Q::nd(j, sum))) + &(&z[m] * &Q::nd(k, sum)));
            let n = cross3(&subn(y, x), &subn(z, x));
            let l = vf(&n).iter().fold(0.0f64, |m, v| m.max(v.abs()));
            let h = Q::f((0.02 / l * 4096.0).round().max(1.0) / 4096.0);
            samples.push(addn(&p, &scalen(&n, &h)));
            samples.push(addn(&p, &scalen(&n, &-&h)));
        }
    }
    for p in &samples {
        if !exact && (a.near(p, 1e-5) || b.near(p, 1e-5)) {
            continue;
        }
        let (Some(ia), Some(ib)) = (a.winding(p), b.winding(p)) else { continue };
        let want = member(op, ia != 0, ib != 0);
        let Some(w) = r.winding(p) else { return Err(format!("{op:?}: point {} is on the result's surface but on neither operand's", fmtv(p))) };
        ensure!(w == want as i32, "{op:?}: point {} has winding number {w} in the result, but is in A: {}, in B: {}", fmtv(p), ia != 0, ib != 0);
    }
    Ok(())
}

gfn! {
fn go(c: &mut Case) -> R {
    let sa = gen_operand(c, T::EXACT);
    let mut sb = gen_operand(c, T::EXACT);
    place(c, &sa.p, &mut sb, T::EXACT);
    c.note(|| format!("{} A {} B {}", T::NAME, sa.show(), sb.show()));
    let mut ma0 = build_mesh!(T, 3, &sa);
    let mut mb0 = build_mesh!(T, 3, &sb);
    if c.s.chance(1, 6) { refine::<T>(c, &mut ma0)?; }
    if c.s.chance(1, 6) { refine::<T>(c, &mut mb0)?; }
    let a = solid(&ma0)?;
    let b = solid(&mb0)?;
    let Some(cross) = crossings(&a, &b, if T::EXACT { &MIDDLE } else { &COARSE }) else { c.label("not-general"); return Ok(()) };
    c.label(if cross.is_empty() { "apart" } else { "crossing" });
    if !cross.is_empty() { c.nontrivial = true; }

    let all = c.s.chance(1, 3);
    let mut vols = vec![];
    let first = pick_op(c);
    let ops = if all { vec![BooleanOp::Union, BooleanOp::Intersection, BooleanOp::Difference] } else { vec![first] };
    let mut last = None;
    for op in ops {
        let mut ma = ma0.clone();
        let mut mb = mb0.clone();
        c.note(|| format!("{op:?}"));
        let m = ma.corefine_and_boolean(&mut mb, match op { BooleanOp::Union => BooleanOp::Union, BooleanOp::Intersection => BooleanOp::Intersection, _ => BooleanOp::Difference });
        let r = solid(&m)?;
        tidy(&m, &r.t)?;
        judge(c, T::EXACT, &op, &a, &b, &r)?;
        // the operands are refined along the curve but keep their shape
        for (m, s, name) in [(&ma, &a, "first"), (&mb, &b, "second")] {
            let x = solid(m).map_err(|e| format!("{op:?}: {name} operand afterwards: {e}"))?;
            ensure!(is_closed(&x.t), "{op:?}: the {name} operand is no longer closed");
            ensure!(close_vol(T::EXACT, &x.vol6(), &s.vol6(), &s.vol6()), "{op:?}: the {name} operand changed its volume");
        }
        vols.push(r.vol6());
        // a result, or an operand that has been cut before
        last = Some(if c.s.chance(1, 4) { c.note(|| "first operand again".into()); let x = solid(&ma)?; (ma, x) } else { (m, r) });
    }
    if all {
        c.label("all-three");
        let (va, vb) = (a.vol6(), b.vol6());
        let sc = &va.abs() + &vb.abs();
        ensure!(close_vol(T::EXACT, &(&vols[0] + &vols[1]), &(&va + &vb), &sc), "volumes of union and intersection do not add up to those of the operands");
        ensure!(close_vol(T::EXACT, &(&vols[2] + &vols[1]), &va, &sc), "volumes of difference and intersection do not add up to that of the first operand");
    }
    // go on with the result
    if c.s.chance(1, 4) {
        let (mut m, r) = last.unwrap();
        if r.t.is_empty() || r.t.len() > 120 { return Ok(()) }
        let mut sd = gen_closed(c, false, T::EXACT);
        place(c, &r.p, &mut sd, T::EXACT);
        let d = Solid::new(sd.p.clone(), sd.t.clone());
        if crossings(&r, &d, if T::EXACT { &MIDDLE } else { &COARSE }).is_none() { return Ok(()) }
        // barycentric coordinates on a sliver are not worth much in floating point
        if !T::EXACT && r.thinnest() < 0.02 { return Ok(()) }
        c.label("chained");
        c.note(|| format!("then with D {}", sd.show()));
        let op = pick_op(c);
        let mut md = build_mesh!(T, 3, &sd);
        let m2 = m.corefine_and_boolean(&mut md, match op { BooleanOp::Union => BooleanOp::Union, BooleanOp::Intersection => BooleanOp::Intersection, _ => BooleanOp::Difference });
        let r2 = solid(&m2)?;
        tidy(&m2, &r2.t)?;
        judge(c, T::EXACT, &op, &r, &d, &r2)?;
    }
    Ok(())
}
}

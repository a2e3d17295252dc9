//! Isotropic remeshing of closed surfaces.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh::basic_types::Mesh;
use cgar::mesh_processing::remesh::RemeshOptions;
use std::collections::BTreeMap;

pub const SPEC: Spec = Spec {
    id: "C17",
    rule: "remeshing split, collapsed or flipped edges, and the result was audited and compared with the original",
    quick: 100_000,
    thorough: 1_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    // smoothing in sequence makes exact coordinates grow exponentially
    if c.s.chance(1, 12) { by_num!(c, go(c)) } else { go::<cgar::numeric::cgar_f64::CgarF64>(c) }
}

type F3 = [f64; 3];
fn sub(a: &F3, b: &F3) -> F3 {
    std::array::from_fn(|k| a[k] - b[k])
}
fn dot(a: &F3, b: &F3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: &F3, b: &F3) -> F3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn len(a: &F3) -> f64 {
    dot(a, a).sqrt()
}

/// distance of a point to a triangle
fn dist_tri(p: &F3, a: &F3, b: &F3, c: &F3) -> f64 {
    let (ab, ac, ap) = (sub(b, a), sub(c, a), sub(p, a));
    let (d1, d2) = (dot(&ab, &ap), dot(&ac, &ap));
    let at = |v: f64, w: f64| len(&sub(p, &std::array::from_fn(|k| a[k] + v * ab[k] + w * ac[k])));
    if d1 <= 0.0 && d2 <= 0.0 {
        return at(0.0, 0.0);
    }
    let bp = sub(p, b);
    let (d3, d4) = (dot(&ab, &bp), dot(&ac, &bp));
    if d3 >= 0.0 && d4 <= d3 {
        return at(1.0, 0.0);
    }
    let vc = d1 * d4 - d3 * d2;
    if vc <= 0.0 && d1 >= 0.0 && d3 <= 0.0 {
        return at(d1 / (d1 - d3), 0.0);
    }
    let cp = sub(p, c);
    let (d5, d6) = (dot(&ab, &cp), dot(&ac, &cp));
    if d6 >= 0.0 && d5 <= d6 {
        return at(0.0, 1.0);
    }
    let vb = d5 * d2 - d1 * d6;
    if vb <= 0.0 && d2 >= 0.0 && d6 <= 0.0 {
        return at(0.0, d2 / (d2 - d6));
    }
    let va = d3 * d6 - d5 * d4;
    if va <= 0.0 && d4 - d3 >= 0.0 && d5 - d6 >= 0.0 {
        let w = (d4 - d3) / ((d4 - d3) + (d5 - d6));
        return at(1.0 - w, w);
    }
    let den = va + vb + vc;
    at(vb / den, vc / den)
}

fn edges(p: &[F3], t: &[[usize; 3]]) -> Vec<f64> {
    edge_uses(t).unwrap_or_default().keys().map(|(v, w)| len(&sub(&p[*v], &p[*w]))).collect()
}


/// replace every triangle by four
fn subdivide(s: &Soup<3>) -> Soup<3> {
    let mut p = s.p.clone();
    let mut mid: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut t = vec![];
    for &[a, b, c] in &s.t {
        let mut m = |v: usize, w: usize| {
            *mid.entry((v.min(w), v.max(w))).or_insert_with(|| {
                p.push(lerpn(&s.p[v], &s.p[w], &Q::nd(1, 2)));
                p.len() - 1
            })
        };
        let (x, y, z) = (m(a, b), m(b, c), m(c, a));
        t.extend([[a, x, z], [x, b, y], [z, y, c], [x, y, z]]);
    }
    Soup { p, t }
}

/// mean square root of the squared edge lengths, shortest and longest edge
fn lengths(p: &[F3], t: &[[usize; 3]]) -> (f64, f64, f64) {
    let e = edges(p, t);
    let rms = (e.iter().map(|l| l * l).sum::<f64>() / e.len() as f64).sqrt();
    (rms, e.iter().cloned().fold(f64::MAX, f64::min), e.iter().cloned().fold(0.0, f64::max))
}

fn measure(p: &[F3], t: &[[usize; 3]]) -> (f64, f64) {
    let (mut v, mut a) = (0.0, 0.0);
    for x in t {
        let [o, q, r] = x.map(|k| p[k]);
        let n = cross(&sub(&q, &o), &sub(&r, &o));
        a += len(&n) / 2.0;
        v += dot(&o, &cross(&q, &r)) / 6.0;
    }
    (v, a)
}

fn far_from(q: &[F3], used: &[[usize; 3]], p: &[F3], t: &[[usize; 3]]) -> f64 {
    let mut far = 0.0f64;
    let vs: std::collections::BTreeSet<usize> = used.iter().flatten().copied().collect();
    for v in vs {
        let d = t.iter().map(|u| dist_tri(&q[v], &p[u[0]], &p[u[1]], &p[u[2]])).fold(f64::MAX, f64::min);
        far = far.max(d);
    }
    far
}

gfn! {
fn go(c: &mut Case) -> R {
    let fine = !T::EXACT && c.s.bool();
    let s = if fine {
        let mut s = gen_closed(c, false, false);
        let n = if c.s.bool() { 60 } else { 240 };
        while s.t.len() < n { s = subdivide(&s); }
        s
    } else { gen_closed(c, !T::EXACT, T::EXACT) };
    if T::EXACT && s.p.len() > 6 { return Ok(()) }
    let p: Vec<F3> = s.p.iter().map(|p| std::array::from_fn(|k| p[k].to_f64())).collect();
    let (rms, short, long) = lengths(&p, &s.t);
    let (vol, area) = measure(&p, &s.t);
    let mut target = rms * c.s.int(4, 24) as f64 / 10.0;
    if T::EXACT { target = (target * 64.0).round() / 64.0; if target < rms { return Ok(()) } }
    let iters = c.s.below(if T::EXACT { 2 } else { 11 });
    // without a target the present lengths are kept
    let none = !T::EXACT && c.s.chance(1, 10);
    if none { target = rms; }
    let mut opt = RemeshOptions::<T>::new(T::from(if none { 0.0 } else { target }));
    opt.max_iterations = iters;
    c.note(|| format!("{} {} target {target}{} iterations {iters}", T::NAME, s.show(), if none { " (not given)" } else { "" }));
    let mut m = build_mesh!(T, 3, &s);
    m.isotropic_remesh(&opt).map_err(|e| format!("remeshing failed: {e:?}"))?;

    let t = audit(&m, Borders::Linked)?;
    ensure!(is_closed(&t), "the remeshed surface is not closed");
    ensure!(vertex_manifold(&t), "the remeshed surface is not a manifold");
    ensure!(euler(&t) == euler(&s.t), "the Euler characteristic went from {} to {}", euler(&s.t), euler(&t));
    ensure!(components(&t) == components(&s.t), "the number of pieces went from {} to {}", components(&s.t), components(&t));
    let q: Vec<F3> = m.vertices.iter().map(|v| { let u = unpt(&v.position); std::array::from_fn(|k| u[k].to_f64()) }).collect();
    ensure!(t.iter().flatten().all(|v| q[*v].iter().all(|x| x.is_finite())), "a coordinate is not finite");
    c.nontrivial = norm_tris(&t) != norm_tris(&s.t);

    if iters == 0 {
        c.label("no-iteration");
        ensure!(norm_tris(&t) == norm_tris(&s.t) && q == p, "no iteration was asked for, but the mesh changed");
        return Ok(());
    }
    if short > 0.76 * target && long < 1.44 * target && iters == 1 {
        c.label("in-band");
        ensure!(t.len() == s.t.len() && m.vertices.iter().all(|v| !v.removed) && m.vertices.len() == s.p.len(), "all edges had an acceptable length, but vertices were added or removed");
    }
    if long > 1.46 * target {
        c.label("long");
        ensure!(m.vertices.len() > s.p.len(), "an edge of {} target lengths was there, but none was split", long / target);
    }
    let far = far_from(&q, &t, &p, &s.t) / target;
    let (rms, short, long) = lengths(&q, &t);
    let (rms, short, long) = (rms / target, short / target, long / target);
    let shrink = measure(&q, &t).0 / vol;
    // a surface whose faces are not larger than its thickness is resolved by edges of the target length
    let thick = 3.0 * vol / area;
    if fine && target < thick {
        c.label("resolved");
        ensure!(far < 2.5, "a vertex moved {far} target lengths away from the surface");
        ensure!(shrink > 0.2 && shrink < 1.3, "the volume changed by a factor {shrink}");
        if iters >= 7 {
            ensure!(rms > 0.6 && rms < 1.6, "the mean edge length is {rms} target lengths after {iters} iterations");
            if target < 0.6 * thick && lengths(&p, &s.t).0 < target / 0.7 {
                c.label("converged");
                ensure!(far < 1.5 && shrink > 0.6, "a vertex moved {far} target lengths, the volume changed by a factor {shrink}");
                ensure!(rms > 0.7 && rms < 1.45, "the mean edge length is {rms} target lengths after {iters} iterations");
                ensure!(long < 2.5 && short > 0.25, "edges are between {short} and {long} target lengths after {iters} iterations");
            }
        }
    }
    Ok(())
}
}

//! Areas, centroids, normals, mean edge length, and tangential smoothing.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, build_mesh, ensure, gfn};
use cgar::geometry::spatial_element::SpatialElement;
use std::collections::{BTreeMap, BTreeSet};

pub const SPEC: Spec = Spec {
    id: "C24",
    rule: "a vertex was moved by smoothing with a displacement that is not zero, or all measures of at least four faces were compared",
    quick: 40_000,
    thorough: 400_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    match c.s.weighted(&[2, 1, 5]) {
        0 => by_num!(c, measures3(c)),
        1 => by_num!(c, measures2(c)),
        _ => by_num!(c, smoothing(c)),
    }
}

/// equal for exact types, within a relative 1e-9 for doubles
fn close<T: Num>(got: &T, want: &Q, scale: &Q) -> bool {
    if T::EXACT {
        return got.q() == *want;
    }
    let g = got.ball_center_f64();
    g.is_finite() && (Q::f(g) - want.clone()).abs() <= (want.abs() + scale.clone()) * Q::f(1e-9)
}

fn rms(ps: &[Vec<Q>], ts: &[[usize; 3]]) -> f64 {
    let es: BTreeSet<(usize, usize)> = ts.iter().flat_map(|t| dir_edges(*t)).map(|(a, b)| (a.min(b), a.max(b))).collect();
    if es.is_empty() {
        return 1.0;
    }
    let mut sum = Q::i(0);
    for (a, b) in &es {
        for k in 0..ps[*a].len() {
            let d = &ps[*a][k] - &ps[*b][k];
            sum = &sum + &(&d * &d);
        }
    }
    (sum / Q::i(es.len() as i64)).to_f64().sqrt()
}

macro_rules! measures {
    ($name:ident, $N:tt, $gen:expr) => {
        gfn! {
            fn $name(c: &mut Case) -> R {
                let s: Soup<$N> = $gen(c, T::EXACT);
                let mut m = build_mesh!(T, $N, &s);
                let mut live = s.t.clone();
                if c.s.chance(1, 3) && live.len() > 1 {
                    let k = c.s.below(live.len());
                    let mut rest = live.clone();
                    rest.remove(k);
                    if vertex_manifold(&rest) { m.remove_triangle(k); live = rest; c.label("face-removed"); }
                }
                let fs = live_faces(&m);
                for f in &fs {
                    let t = face_tri(&m, *f)?;
                    let [a, b, d] = t.map(|v| s.p[v].clone());
                    let (u, v) = (subn(&b, &a), subn(&d, &a));
                    let (uu, vv, uv) = (dotn(&u, &u), dotn(&v, &v), dotn(&u, &v));
                    let cross2 = &(&uu * &vv) - &(&uv * &uv); // |u x v|^2
                    let area = m.face_area(*f);
                    if $N == 2 {
                        let want = (&(&u[0] * &v[1]) - &(&u[1] * &v[0])).abs() / Q::i(2);
                        ensure!(close(&area, &want, &uu), "area of {t:?}: {area:?}, expected {want}");
                    } else {
                        // in 3D the square of the area is reported
                        let want = &cross2 / &Q::i(4);
                        ensure!(close(&area, &want, &(&uu * &vv)), "squared area of {t:?}: {area:?}, expected {want}");
                    }
                    let cen = m.face_centroid(*f);
                    let fast = m.face_centroid_fast(*f);
                    for k in 0..$N {
                        let sum = &(&a[k] + &b[k]) + &d[k];
                        let want = &sum / &Q::i(3);
                        let scale = &(&a[k].abs() + &b[k].abs()) + &d[k].abs();
                        ensure!(close(&cen[k], &want, &scale), "centroid of {t:?} coordinate {k}: {:?}, expected {want}", cen[k]);
                        let g = fast[k].ball_center_f64();
                        ensure!((Q::f(g) - want.clone()).abs() <= &(&scale * &Q::f(1e-12)) + &Q::f(1e-300), "fast centroid of {t:?} coordinate {k}: {g}, expected {want}");
                    }
                }
                let ps: Vec<Vec<Q>> = s.p.iter().map(|p| p.to_vec()).collect();
                let want = rms(&ps, &live);
                let got = m.compute_average_edge_length();
                ensure!((got - want).abs() <= 1e-9 * want, "mean edge length {got}, expected {want}");
                if fs.len() >= 4 { c.nontrivial = true; }
                c.label("measures");
                extra3!($N, c, m, s, fs);
                Ok(())
            }
        }
    };
}
macro_rules! extra3 {
    (2, $c:ident, $m:ident, $s:ident, $fs:ident) => {};
    (3, $c:ident, $m:ident, $s:ident, $fs:ident) => {
        for f in &$fs {
            let t = face_tri(&$m, *f)?;
            let [a, b, d] = t.map(|v| $s.p[v].clone());
            let want = cross3(&subn(&b, &a), &subn(&d, &a));
            let n = $m.face_normal(*f);
            let scale = &dotn(&subn(&b, &a), &subn(&b, &a)) + &dotn(&subn(&d, &a), &subn(&d, &a));
            for k in 0..3 {
                ensure!(close(&n[k], &want[k], &scale), "normal of {t:?} coordinate {k}: {:?}, expected {}", n[k], want[k]);
            }
            let pl = $m.plane_from_face(*f);
            for (v, p) in t.iter().zip([&a, &b, &d]) {
                let e = (0..3).fold(pl.d.q(), |e, k| &e + &(&pl.normal[k].q() * &p[k]));
                let size = (0..3).fold(Q::i(1), |e, k| &e + &(&pl.normal[k].q() * &p[k]).abs());
                ensure!(if T::EXACT { e.is0() } else { e.abs() <= &size * &Q::f(1e-9) }, "vertex {v} is off the plane of its face {t:?} by {e}");
            }
            let up: Q = (0..3).fold(Q::i(0), |e, k| &e + &(&pl.normal[k].q() * &want[k]));
            ensure!(want.iter().all(|x| x.is0()) || up.sgn() > 0, "the plane of {t:?} faces the other way");
            // doubled area squared with one corner moved elsewhere
            let mv = $c.s.below(3);
            let q: [Q; 3] = std::array::from_fn(|k| &$s.p[t[mv]][k] + &Q::nd($c.s.int(-4, 4), 4));
            let mut moved = [a, b, d];
            moved[mv] = q.clone();
            let w = cross3(&subn(&moved[1], &moved[0]), &subn(&moved[2], &moved[0]));
            let got = $m.area2x4_after_move(*f, t[mv], &pt(&q));
            let ww = dotn(&w, &w);
            ensure!(close(&got, &ww, &(&scale * &scale)), "area after moving {} of {t:?}: {got:?}, expected {ww}", t[mv]);
        }
    };
}
measures!(measures3, 3, |c: &mut Case, e: bool| gen_surface(c, false, e));
measures!(measures2, 2, |c: &mut Case, e: bool| gen_planar(c, e));

/// outcome of smoothing one vertex: the new position, or None when it must stay
fn model(ps: &[[Q; 3]], ts: &[[usize; 3]], border: &BTreeSet<usize>, v: usize, alpha: &Q, max2: &Q) -> (Option<[Q; 3]>, bool) {
    let nb = neighbours(ts, v);
    if nb.is_empty() || border.contains(&v) {
        return (None, false);
    }
    let a = &ps[v];
    let mut d: [Q; 3] = std::array::from_fn(|_| Q::i(0));
    for b in &nb {
        d = addn(&d, &subn(&ps[*b], a));
    }
    d = scalen(&d, &Q::nd(1, nb.len() as i64));
    let mut n: [Q; 3] = std::array::from_fn(|_| Q::i(0));
    for t in ts.iter().filter(|t| t.contains(&v)) {
        n = addn(&n, &cross3(&subn(&ps[t[1]], &ps[t[0]]), &subn(&ps[t[2]], &ps[t[0]])));
    }
    let nn = dotn(&n, &n);
    if !nn.is0() {
        let k = &dotn(&d, &n) / &nn;
        d = subn(&d, &scalen(&n, &k));
    }
    let new = addn(a, &scalen(&d, alpha));
    let mut over = false;
    let mut tight = false;
    for b in &nb {
        let l = d2(&new, &ps[*b]);
        if l > *max2 {
            over = true;
        }
        if (&l - max2).abs() <= &(max2 * &Q::f(1e-7)) + &Q::f(1e-8) {
            tight = true;
        }
    }
    (if over { None } else { Some(new) }, tight)
}

gfn! {
fn smoothing(c: &mut Case) -> R {
    let mut s = gen_surface(c, false, T::EXACT);
    if c.s.chance(1, 4) {
        // a vertex no triangle uses
        let p = addn(&s.p[0], &[Q::i(1), Q::i(2), Q::i(3)]);
        s.p.push(p);
        c.label("isolated-vertex");
    }
    let mut m = build_mesh!(T, 3, &s);
    let mut ps = s.p.clone();
    let border: BTreeSet<usize> = {
        let e: BTreeMap<(usize, usize), usize> = edge_uses(&s.t).ok_or("generator")?;
        e.keys().filter(|(a, b)| !e.contains_key(&(*b, *a))).flat_map(|(a, b)| [*a, *b]).collect()
    };
    let sweep = c.s.chance(1, 4);
    let steps = if sweep { 1 } else { 1 + c.s.below(4) };
    // longest edge decides which limits are interesting
    let mut longest = Q::i(0);
    for t in &s.t { for (a, b) in dir_edges(*t) { longest = qmax(&longest, &d2(&ps[a], &ps[b])); } }
    for _ in 0..steps {
        let limit2 = match c.s.below(4) {
            0 | 1 => &longest * &Q::i(16),
            2 => longest.clone(),
            _ => &longest * &Q::nd(1 + c.s.below(8) as i64, 8),
        };
        let before = tris(&m)?;
        if sweep {
            // all vertices in order, half way; the limit is given as a length there
            let len = Q::f((limit2.to_f64().sqrt() * 16.0).ceil() / 16.0);
            let max2 = &len * &len;
            let mut want = ps.clone();
            let mut moved = 0;
            let mut fuzzy = false;
            for v in 0..want.len() {
                let (r, tight) = model(&want, &s.t, &border, v, &Q::nd(1, 2), &max2);
                fuzzy |= tight;
                if let Some(p) = r { want[v] = p; moved += 1; }
            }
            if fuzzy && !T::EXACT { return Ok(()); }
            let got = m.smooth_vertices(1, &T::of(&len));
            c.note(|| format!("sweep, limit {len}"));
            ensure!(got == moved, "sweep moved {got} vertices, expected {moved}");
            ps = want;
            c.label("sweep");
        } else {
            let v = c.s.below(ps.len());
            let alpha = if T::EXACT { Q::nd(1 + c.s.below(4) as i64, 1 + c.s.below(4) as i64) } else { Q::nd(1 + c.s.below(4) as i64, 4) };
            let (r, tight) = model(&ps, &s.t, &border, v, &alpha, &limit2);
            if tight && !T::EXACT { continue; }
            let got = m.smooth_tangential(v, T::of(&alpha), &T::of(&limit2));
            c.note(|| format!("smooth {v} by {alpha}, squared limit {limit2}: {got}"));
            ensure!(got == r.is_some(), "vertex {v} reported moved: {got}, expected {}", r.is_some());
            match r {
                Some(p) => {
                    if p != ps[v] { c.nontrivial = true; c.label("moved"); }
                    ps[v] = p;
                }
                None => c.label(if border.contains(&v) { "border-kept" } else { "kept" }),
            }
        }
        let scale = longest.to_f64().sqrt();
        for (i, p) in ps.iter().enumerate() {
            for k in 0..3 {
                let x = &m.vertices[i].position[k];
                let ok = if T::EXACT { x.q() == p[k] } else { (x.ball_center_f64() - p[k].to_f64()).abs() <= 1e-7 * (1.0 + scale + p[k].to_f64().abs()) };
                ensure!(ok, "vertex {i} coordinate {k} is {}, expected {}", x.ball_center_f64(), p[k].to_f64());
            }
        }
        ensure!(tris(&m)? == before, "smoothing changed the triangles");
        if !T::EXACT {
            // continue from the positions the library computed
            ps = m.vertices.iter().map(|v| unpt(&v.position)).collect();
        }
    }
    expect_tris(&audit(&m, Borders::Linked)?, &s.t)
}
}

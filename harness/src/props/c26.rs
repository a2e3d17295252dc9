//! Booleans of planar meshes: regions of triangles that cross, touch or coincide.
use super::c01::{close_vol, pick_op};
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh_processing::boolean::BooleanOp;
use std::collections::{BTreeMap, BTreeSet};

pub const SPEC: Spec = Spec {
    id: "C26",
    rule: "two planar regions whose boxes meet were combined and the result compared with the set operation",
    quick: 60_000,
    thorough: 600_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, planar(c))
}

type Tri = [[Q; 2]; 3];

fn area2(t: &Tri) -> Q {
    orient2(&t[0], &t[1], &t[2])
}
fn centre(p: &[[Q; 2]]) -> [Q; 2] {
    let n = Q::nd(1, p.len() as i64);
    std::array::from_fn(|i| &p.iter().fold(Q::zero(), |s, x| &s + &x[i]) * &n)
}
/// the part of a convex polygon on a triangle
fn clip(poly: &[[Q; 2]], t: &Tri) -> Vec<[Q; 2]> {
    let mut p = poly.to_vec();
    for k in 0..3 {
        let (a, b) = (&t[k], &t[(k + 1) % 3]);
        let side: Vec<Q> = p.iter().map(|x| orient2(a, b, x)).collect();
        let mut out = Vec::new();
        for i in 0..p.len() {
            let j = (i + 1) % p.len();
            if side[i].sgn() >= 0 {
                out.push(p[i].clone());
            }
            if side[i].sgn() * side[j].sgn() < 0 {
                out.push(lerpn(&p[i], &p[j], &(&side[i] / &(&side[i] - &side[j]))));
            }
        }
        p = out;
    }
    p
}
fn poly_area2(p: &[[Q; 2]]) -> Q {
    (1..p.len().saturating_sub(1)).fold(Q::zero(), |s, i| &s + &orient2(&p[0], &p[i], &p[i + 1]))
}

/// A region: its triangles, counter-clockwise and without overlap.
struct Region {
    t: Vec<Tri>,
    f: Vec<[[f64; 2]; 3]>,
}
impl Region {
    fn new(t: Vec<Tri>) -> Self {
        let f = t.iter().map(|t| t.each_ref().map(|p| p.each_ref().map(|x| x.to_f64()))).collect();
        Region { t, f }
    }
    fn of(s: &Soup<2>) -> Self {
        Region::new(s.t.iter().map(|t| t.map(|v| s.p[v].clone())).collect())
    }
    fn area2(&self) -> Q {
        self.t.iter().fold(Q::zero(), |s, t| &s + &area2(t))
    }
    /// how many triangles hold the point inside; None on or near an edge
    fn holds(&self, p: &[Q; 2]) -> Option<usize> {
        let x = [p[0].to_f64(), p[1].to_f64()];
        let mut n = 0;
        for f in &self.f {
            let mut least = f64::INFINITY;
            for k in 0..3 {
                let (a, b) = (f[k], f[(k + 1) % 3]);
                let d = [b[0] - a[0], b[1] - a[1]];
                let l = (d[0] * d[0] + d[1] * d[1]).sqrt();
                least = least.min((d[0] * (x[1] - a[1]) - d[1] * (x[0] - a[0])) / l);
            }
            if least < -1e-6 {
                continue;
            }
            if least < 1e-6 {
                return None;
            }
            n += 1;
        }
        Some(n)
    }
    fn meet_area2(&self, o: &Region) -> (Q, Vec<[Q; 2]>) {
        let (mut s, mut mids) = (Q::zero(), Vec::new());
        for t in &self.t {
            for u in &o.t {
                let p = clip(t, u);
                if p.len() > 2 {
                    s = &s + &poly_area2(&p);
                    mids.push(centre(&p));
                }
            }
        }
        (s, mids)
    }
}

/// Every point where the meshes' edges could split each other is clearly on or clearly off every edge, and no
/// vertex of one mesh lies on the other.
fn general(a: &Soup<2>, b: &Soup<2>, exact: bool) -> bool {
    let fl = |s: &Soup<2>| -> (Vec<[f64; 2]>, Vec<[usize; 2]>) {
        let p = s.p.iter().map(|p| [p[0].to_f64(), p[1].to_f64()]).collect();
        let e: BTreeSet<[usize; 2]> = s.t.iter().flat_map(|t| dir_edges(*t)).map(|(u, v)| [u.min(v), u.max(v)]).collect();
        (p, e.into_iter().collect())
    };
    let dist = |p: [f64; 2], u: [f64; 2], v: [f64; 2]| -> f64 {
        let (d, w) = ([v[0] - u[0], v[1] - u[1]], [p[0] - u[0], p[1] - u[1]]);
        let t = ((d[0] * w[0] + d[1] * w[1]) / (d[0] * d[0] + d[1] * d[1])).clamp(0.0, 1.0);
        ((w[0] - t * d[0]).powi(2) + (w[1] - t * d[1]).powi(2)).sqrt()
    };
    let ((pa, ea), (pb, eb)) = (fl(a), fl(b));
    // at the scale of the faces, which are not cut more finely than that
    let longest = [(&pa, &ea), (&pb, &eb)].iter().flat_map(|(p, e)| e.iter().map(|[u, v]| (p[*u][0] - p[*v][0]).hypot(p[*u][1] - p[*v][1]))).fold(1.0, f64::max);
    let far = if exact { 1e-4 * longest } else { 1e-3 };
    let clear = |p: &[[f64; 2]], q: &[[f64; 2]], e: &[[usize; 2]]| p.iter().all(|x| e.iter().all(|[u, v]| dist(*x, q[*u], q[*v]) > far));
    if !clear(&pa, &pb, &eb) || !clear(&pb, &pa, &ea) {
        return false;
    }
    // crossings keep away from the edges they are not on
    for e in &ea {
        for f in &eb {
            let (p, q, r, s) = (pa[e[0]], pa[e[1]], pb[f[0]], pb[f[1]]);
            let o = |a: [f64; 2], b: [f64; 2], c: [f64; 2]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
            let (x, y) = (o(r, s, p), o(r, s, q));
            if x * y > 0.0 || o(p, q, r) * o(p, q, s) > 0.0 {
                continue;
            }
            let t = x / (x - y);
            let z = [p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])];
            if ea.iter().any(|g| g != e && dist(z, pa[g[0]], pa[g[1]]) < far) || eb.iter().any(|g| g != f && dist(z, pb[g[0]], pb[g[1]]) < far) {
                return false;
            }
        }
    }
    true
}

/// matrix with positive determinant and offset, applied to every soup
fn map2(c: &mut Case, rational: bool, many: &mut [&mut Vec<[Q; 2]>]) {
    const M: [[i64; 4]; 8] = [[1, 0, 0, 1], [1, 1, 0, 1], [1, 0, -1, 1], [0, -1, 1, 0], [3, -4, 4, 3], [2, 1, -1, 2], [5, -12, 12, 5], [2, 0, 0, 1]];
    let m = M[c.s.below(8)];
    let s = if rational { [Q::i(1), Q::nd(1, 3), Q::nd(2, 7)][c.s.below(3)].clone() } else { [Q::i(1), Q::nd(1, 2), Q::nd(1, 8)][c.s.below(3)].clone() };
    let off: [Q; 2] = std::array::from_fn(|_| if rational { Q::nd(c.s.int(-20, 20), 7) } else { Q::nd(c.s.int(-24, 24), 16) });
    for ps in many {
        for p in ps.iter_mut() {
            let q = |i: usize| &(&(&(&p[0] * &Q::i(m[2 * i])) + &(&p[1] * &Q::i(m[2 * i + 1]))) * &s) + &off[i];
            *p = [q(0), q(1)];
        }
    }
}

/// Half squares of the grid.
type Cells = BTreeSet<([i64; 2], bool)>;

fn cell_tri(o: &[i64; 2], k: bool, n: i64) -> [[i64; 2]; 3] {
    let [x, y] = *o;
    if k { [[x, y], [x + n, y + n], [x, y + n]] } else { [[x, y], [x + n, y], [x + n, y + n]] }
}
fn soup_of(faces: impl IntoIterator<Item = [[i64; 2]; 3]>) -> Soup<2> {
    let mut s: Soup<2> = Soup::default();
    let mut id = BTreeMap::new();
    for f in faces {
        s.t.push(f.map(|p| {
            *id.entry(p).or_insert_with(|| {
                s.p.push(p.map(Q::i));
                s.p.len() - 1
            })
        }));
    }
    s
}
fn cells_soup(set: &Cells) -> Soup<2> {
    soup_of(set.iter().map(|(o, k)| cell_tri(o, *k, 1)))
}
fn gen_cells(c: &mut Case) -> (Cells, Soup<2>) {
    let lo: [i64; 2] = std::array::from_fn(|_| c.s.int(0, 3));
    let mut set = Cells::new();
    let soup = match c.s.weighted(&[3, 2, 3, 1]) {
        0 => {
            c.label("rectangle");
            let hi: [i64; 2] = std::array::from_fn(|k| lo[k] + c.s.int(1, 4));
            for x in lo[0]..hi[0] {
                for y in lo[1]..hi[1] {
                    set.extend([([x, y], false), ([x, y], true)]);
                }
            }
            let p = [lo, [hi[0], lo[1]], hi, [lo[0], hi[1]]];
            soup_of(if c.s.bool() { [[p[0], p[1], p[2]], [p[0], p[2], p[3]]] } else { [[p[0], p[1], p[3]], [p[1], p[2], p[3]]] })
        }
        1 => {
            c.label("triangle");
            let n = c.s.int(1, 4);
            let k = c.s.bool();
            for x in 0..n {
                for y in 0..n {
                    for j in [false, true] {
                        let above = y > x || (y == x && j);
                        if above == k {
                            set.insert(([lo[0] + x, lo[1] + y], j));
                        }
                    }
                }
            }
            soup_of([cell_tri(&lo, k, n)])
        }
        2 => {
            c.label("grown");
            let n = 1 + c.s.below(16);
            for _ in 0..n {
                let base = if set.is_empty() { lo } else { set.iter().nth(c.s.below(set.len())).unwrap().0 };
                let x = ([base[0] + c.s.int(-1, 1), base[1] + c.s.int(-1, 1)], c.s.bool());
                if set.insert(x) && !vertex_manifold(&cells_soup(&set).t) {
                    set.remove(&x);
                }
            }
            cells_soup(&set)
        }
        _ => {
            c.label("empty");
            Soup::default()
        }
    };
    (set, soup)
}

gfn! {
fn planar(c: &mut Case) -> R {
    let touching = c.s.bool();
    let mut shapes: Vec<Soup<2>> = Vec::new();
    let mut ops = Vec::new();
    let mut marks: Vec<[Q; 2]> = Vec::new();
    if touching {
        let (mut have, s) = gen_cells(c);
        shapes.push(s);
        let mut all = have.clone();
        for _ in 0..if T::EXACT { 1 + c.s.weighted(&[3, 2, 1]) } else { 1 } {
            let op = pick_op(c);
            let (cells, s) = gen_cells(c);
            let want: Cells = match op {
                BooleanOp::Union => have.union(&cells).copied().collect(),
                BooleanOp::Intersection => have.intersection(&cells).copied().collect(),
                BooleanOp::Difference => have.difference(&cells).copied().collect(),
            };
            if !vertex_manifold(&cells_soup(&want).t) { c.label("not-manifold"); break }
            all.extend(cells);
            ops.push(op);
            shapes.push(s);
            have = want;
        }
        marks = all.iter().map(|(o, k)| centre(&cell_tri(o, *k, 1).map(|p| p.map(Q::i)))).collect();
        let mut ps: Vec<&mut Vec<[Q; 2]>> = shapes.iter_mut().map(|s| &mut s.p).collect();
        ps.push(&mut marks);
        map2(c, T::EXACT, &mut ps);
        c.label("touching");
    } else {
        for _ in 0..2 {
            let mut s = gen_planar(c, T::EXACT);
            if c.s.chance(1, 6) {
                // a second piece, well away from the first
                let mut o = gen_planar(c, T::EXACT);
                let d = &(&s.bbox().1[0] - &o.bbox().0[0]) + &Q::i(1);
                for p in o.p.iter_mut() { p[0] = &p[0] + &d; }
                s.append(&o);
                c.label("two-pieces");
            }
            map2(c, T::EXACT, &mut [&mut s.p]);
            shapes.push(s);
        }
        if c.s.chance(7, 8) {
            // bring a point of one near a point of the other
            let at = |c: &mut Case, s: &Soup<2>| { let t = s.t[c.s.below(s.t.len())]; centre(&t.map(|v| s.p[v].clone())) };
            let (x, y) = (at(c, &shapes[0]), at(c, &shapes[1]));
            let d: [Q; 2] = std::array::from_fn(|i| &Q::f(((x[i].to_f64() - y[i].to_f64()) * 16.0).round() / 16.0) + &Q::nd(c.s.int(-4, 4), 16));
            for p in shapes[1].p.iter_mut() { *p = addn(p, &d); }
            if T::EXACT && c.s.chance(1, 3) {
                // barely reaching over something
                let (u, v) = (c.s.below(shapes[0].p.len()), c.s.below(shapes[0].p.len()));
                let at = lerpn(&shapes[0].p[u], &shapes[0].p[v], &Q::nd(c.s.int(0, 2), 2));
                let w = shapes[1].p[c.s.below(shapes[1].p.len())].clone();
                let d: [Q; 2] = std::array::from_fn(|i| &(&at[i] - &w[i]) + &Q::nd(2 * c.s.int(-8, 8) + 1, 1 << 12));
                for p in shapes[1].p.iter_mut() { *p = addn(p, &d); }
                c.label("close");
            }
        }
        ops.push(pick_op(c));
        if !general(&shapes[0], &shapes[1], T::EXACT) { c.label("not-general"); return Ok(()) }
        c.label("general");
    }
    if ops.is_empty() { return Ok(()) }
    for s in shapes.iter_mut() { s.shuffle(c); }
    c.note(|| format!("{} {} {}", T::NAME, shapes[0].show(), ops.iter().zip(&shapes[1..]).map(|(o, t)| format!("{o:?} {}", t.show())).collect::<Vec<_>>().join(" ")));
    if ops.len() > 1 { c.label("chained"); }
    let mut m = build_mesh!(T, 2, &shapes[0]);
    let mut a = Region::of(&shapes[0]);
    for (op, s) in ops.iter().zip(&shapes[1..]) {
        let mut n = build_mesh!(T, 2, s);
        let b = Region::of(s);
        let r = m.corefine_and_boolean(&mut n, match op { BooleanOp::Union => BooleanOp::Union, BooleanOp::Intersection => BooleanOp::Intersection, _ => BooleanOp::Difference });
        let region = |m: &cgar::mesh::basic_types::Mesh<T, 2>, what: &str| -> Result<Region, String> {
            let t = audit(m, Borders::Loose).map_err(|e| format!("{op:?}: {what}: {e}"))?;
            if what == "result" { super::c01::tidy(m, &t).map_err(|e| format!("{op:?}: {e}"))?; }
            ensure!(vertex_manifold(&t), "{op:?}: {what}: not a manifold");
            let g = Region::new(exact_tris(m)?);
            ensure!(g.t.iter().all(|t| area2(t).sgn() > 0), "{op:?}: {what}: a triangle is not counter-clockwise");
            whole(&t, m).map_err(|e| format!("{op:?}: {what}: {e}"))?;
            Ok(g)
        };
        let got = region(&r, "result")?;
        let (common, mut mids) = a.meet_area2(&b);
        if common.sgn() > 0 { c.nontrivial = true; c.label("overlap"); }
        let (sa, sb) = (a.area2(), b.area2());
        let want = match op {
            BooleanOp::Union => &(&sa + &sb) - &common,
            BooleanOp::Intersection => common,
            BooleanOp::Difference => &sa - &common,
        };
        let scale = &(&sa + &sb) + &Q::i(1);
        ensure!(close_vol(T::EXACT, &got.area2(), &want, &scale), "{op:?}: twice the area is {}, not {want}", got.area2());
        mids.extend(marks.iter().cloned());
        mids.extend(got.t.iter().map(|t| centre(t)));
        for t in a.t.iter().chain(&b.t) {
            let k = [1 + c.s.below(5) as i64, 1 + c.s.below(5) as i64, 1 + c.s.below(5) as i64];
            let n = Q::nd(1, k.iter().sum());
            mids.push(std::array::from_fn(|i| &(0..3).fold(Q::zero(), |s, j| &s + &(&t[j][i] * &Q::i(k[j]))) * &n));
        }
        for p in &mids {
            let (Some(x), Some(y)) = (a.holds(p), b.holds(p)) else { continue };
            let set = match op { BooleanOp::Union => x + y > 0, BooleanOp::Intersection => x * y > 0, BooleanOp::Difference => x > 0 && y == 0 };
            let Some(g) = got.holds(p) else { continue };
            ensure!(g == set as usize, "{op:?}: {} is in {g} triangles of the result, and {} the set", fmtv(p), if set { "in" } else { "not in" });
            c.checks += 1;
        }
        // the operands still cover the same regions
        for (m, old, what) in [(&m, &a, "first operand afterwards"), (&n, &b, "second operand afterwards")] {
            let now = region(m, what)?;
            ensure!(close_vol(T::EXACT, &now.area2(), &old.area2(), &scale), "{op:?}: {what}: twice the area is {}, not {}", now.area2(), old.area2());
            for p in mids.iter().chain(&now.t.iter().map(|t| centre(t)).collect::<Vec<_>>()) {
                if let (Some(x), Some(y)) = (now.holds(p), old.holds(p)) {
                    ensure!(x == y, "{op:?}: {what}: {} is in {x} triangles, was in {y}", fmtv(p));
                }
            }
        }
        m = r;
        a = got;
    }
    Ok(())
}
}

/// No two border edges lie on each other: the pieces fit edge to edge.
fn whole<T: Num>(t: &[[usize; 3]], m: &cgar::mesh::basic_types::Mesh<T, 2>) -> R {
    let dirs: BTreeSet<(usize, usize)> = t.iter().flat_map(|t| dir_edges(*t)).collect();
    let p: Vec<[f64; 2]> = m.vertices.iter().map(|v| std::array::from_fn(|i| v.position[i].q().to_f64())).collect();
    let open: Vec<(usize, usize)> = dirs.iter().filter(|(u, v)| !dirs.contains(&(*v, *u))).copied().collect();
    for (i, (u, v)) in open.iter().enumerate() {
        let (a, b) = (p[*u], p[*v]);
        let d = [b[0] - a[0], b[1] - a[1]];
        let l = (d[0] * d[0] + d[1] * d[1]).sqrt();
        for (x, y) in &open[..i] {
            let rel = |q: [f64; 2]| ((d[0] * (q[0] - a[0]) + d[1] * (q[1] - a[1])) / l, (d[0] * (q[1] - a[1]) - d[1] * (q[0] - a[0])) / l);
            let ((s, h), (e, k)) = (rel(p[*x]), rel(p[*y]));
            if h.abs() < 1e-9 && k.abs() < 1e-9 && s > e && s.min(l) - e.max(0.0) > 1e-6 {
                return Err(format!("border edges {u}-{v} and {x}-{y} lie on each other"));
            }
        }
    }
    Ok(())
}

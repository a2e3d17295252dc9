//! Triangle-mesh generators, an index-level mesh model and an independent half-edge audit.
#![allow(dead_code)]
use crate::case::Case;
use crate::ensure;
use crate::num::*;
use crate::q::*;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::scalar::Scalar;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Soup<const N: usize> {
    pub p: Vec<[Q; N]>,
    pub t: Vec<[usize; 3]>,
}

pub fn rot(t: [usize; 3]) -> [usize; 3] {
    let [a, b, c] = t;
    if a <= b && a <= c {
        [a, b, c]
    } else if b <= a && b <= c {
        [b, c, a]
    } else {
        [c, a, b]
    }
}
pub fn flip(t: [usize; 3]) -> [usize; 3] {
    [t[0], t[2], t[1]]
}
pub fn dir_edges(t: [usize; 3]) -> [(usize, usize); 3] {
    [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
}
pub fn norm_tris(ts: &[[usize; 3]]) -> Vec<[usize; 3]> {
    let mut v: Vec<_> = ts.iter().map(|t| rot(*t)).collect();
    v.sort();
    v
}
/// directed edge -> triangle index; None if a directed edge is used twice
pub fn edge_uses(ts: &[[usize; 3]]) -> Option<BTreeMap<(usize, usize), usize>> {
    let mut m = BTreeMap::new();
    for (i, t) in ts.iter().enumerate() {
        for e in dir_edges(*t) {
            if m.insert(e, i).is_some() {
                return None;
            }
        }
    }
    Some(m)
}
pub fn is_closed(ts: &[[usize; 3]]) -> bool {
    match edge_uses(ts) {
        None => false,
        Some(m) => m.keys().all(|&(a, b)| m.contains_key(&(b, a))),
    }
}
/// number of separate fans of triangles at each used vertex
pub fn fans(ts: &[[usize; 3]]) -> BTreeMap<usize, usize> {
    let mut at: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, t) in ts.iter().enumerate() {
        for v in t {
            at.entry(*v).or_default().push(i);
        }
    }
    let mut out = BTreeMap::new();
    for (v, l) in at {
        // union triangles sharing an edge at v
        let mut comp: Vec<usize> = (0..l.len()).collect();
        fn find(c: &mut Vec<usize>, i: usize) -> usize {
            if c[i] == i { i } else { let r = find(c, c[i]); c[i] = r; r }
        }
        let mut by: BTreeMap<usize, usize> = BTreeMap::new();
        for (k, &i) in l.iter().enumerate() {
            for &w in &ts[i] {
                if w != v {
                    if let Some(&k2) = by.get(&w) {
                        let (a, b) = (find(&mut comp, k), find(&mut comp, k2));
                        comp[a] = b;
                    } else {
                        by.insert(w, k);
                    }
                }
            }
        }
        let roots: BTreeSet<usize> = (0..l.len()).map(|k| find(&mut comp, k)).collect();
        out.insert(v, roots.len());
    }
    out
}
pub fn vertex_manifold(ts: &[[usize; 3]]) -> bool {
    fans(ts).values().all(|&n| n == 1)
}
pub fn components(ts: &[[usize; 3]]) -> usize {
    comp_ids(ts).iter().collect::<BTreeSet<_>>().len()
}
/// component (through shared vertices) of each triangle
pub fn comp_ids(ts: &[[usize; 3]]) -> Vec<usize> {
    let n = ts.iter().flatten().max().map_or(0, |m| m + 1);
    let mut c: Vec<usize> = (0..n).collect();
    fn find(c: &mut Vec<usize>, mut i: usize) -> usize {
        while c[i] != i {
            c[i] = c[c[i]];
            i = c[i];
        }
        i
    }
    for t in ts {
        for k in 1..3 {
            let (a, b) = (find(&mut c, t[0]), find(&mut c, t[k]));
            c[a] = b;
        }
    }
    ts.iter().map(|t| find(&mut c, t[0])).collect()
}
pub fn euler(ts: &[[usize; 3]]) -> i64 {
    let v: BTreeSet<usize> = ts.iter().flatten().copied().collect();
    let e: BTreeSet<(usize, usize)> = ts.iter().flat_map(|t| dir_edges(*t)).map(|(a, b)| (a.min(b), a.max(b))).collect();
    v.len() as i64 - e.len() as i64 + ts.len() as i64
}
pub fn neighbours(ts: &[[usize; 3]], v: usize) -> BTreeSet<usize> {
    ts.iter().filter(|t| t.contains(&v)).flatten().copied().filter(|&w| w != v).collect()
}

impl<const N: usize> Soup<N> {
    pub fn tri(&self, i: usize) -> [&[Q; N]; 3] {
        let t = self.t[i];
        [&self.p[t[0]], &self.p[t[1]], &self.p[t[2]]]
    }
    pub fn show(&self) -> String {
        let ps: Vec<String> = self.p.iter().map(fmtv).collect();
        format!("P={} T={:?}", ps.join(" "), self.t)
    }
    pub fn quad(&mut self, a: usize, b: usize, c: usize, d: usize, diag: bool) {
        if diag {
            self.t.push([a, b, c]);
            self.t.push([a, c, d]);
        } else {
            self.t.push([a, b, d]);
            self.t.push([b, c, d]);
        }
    }
    pub fn append(&mut self, o: &Soup<N>) {
        let k = self.p.len();
        self.p.extend(o.p.iter().cloned());
        self.t.extend(o.t.iter().map(|t| [t[0] + k, t[1] + k, t[2] + k]));
    }
    pub fn bbox(&self) -> ([Q; N], [Q; N]) {
        let mut lo = self.p[0].clone();
        let mut hi = self.p[0].clone();
        for p in &self.p {
            for i in 0..N {
                lo[i] = qmin(&lo[i], &p[i]);
                hi[i] = qmax(&hi[i], &p[i]);
            }
        }
        (lo, hi)
    }
    /// relabel vertices, reorder and rotate triangles
    pub fn shuffle(&mut self, c: &mut Case) {
        let pm = c.s.perm(self.p.len());
        let mut p2 = self.p.clone();
        for (i, &j) in pm.iter().enumerate() {
            p2[j] = self.p[i].clone();
        }
        self.p = p2;
        for t in self.t.iter_mut() {
            for v in t.iter_mut() {
                *v = pm[*v];
            }
            let k = c.s.below(3);
            t.rotate_left(k);
        }
        let tm = c.s.perm(self.t.len());
        self.t = tm.iter().map(|&i| self.t[i]).collect();
    }
    pub fn drop_unused(&mut self) {
        let used: BTreeSet<usize> = self.t.iter().flatten().copied().collect();
        let mut map = BTreeMap::new();
        let mut p = vec![];
        for v in used {
            map.insert(v, p.len());
            p.push(self.p[v].clone());
        }
        self.p = p;
        for t in self.t.iter_mut() {
            for v in t.iter_mut() {
                *v = map[v];
            }
        }
    }
}

/// counter-clockwise star of n integer directions, consecutive angles < 180 degrees
fn ring_dirs(n: usize) -> Vec<(i64, i64)> {
    match n {
        3 => vec![(2, 0), (-1, 2), (-1, -2)],
        4 => vec![(2, 0), (0, 2), (-2, 0), (0, -2)],
        5 => vec![(3, 0), (1, 3), (-3, 2), (-3, -2), (1, -3)],
        6 => vec![(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)],
        _ => vec![(3, 0), (2, 2), (0, 3), (-2, 2), (-3, 0), (-2, -2), (0, -3), (2, -2)],
    }
}
fn qi(a: i64) -> Q {
    Q::i(a)
}
pub fn tetra() -> Soup<3> {
    Soup {
        p: vec![[qi(0), qi(0), qi(0)], [qi(4), qi(0), qi(0)], [qi(0), qi(4), qi(0)], [qi(0), qi(0), qi(4)]],
        t: vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]],
    }
}
/// axis-parallel box
pub fn cuboid(lo: &[Q; 3], hi: &[Q; 3], diag: &[bool; 6]) -> Soup<3> {
    let mut s = Soup::default();
    for k in 0..8 {
        s.p.push(std::array::from_fn(|i| if k >> i & 1 == 1 { hi[i].clone() } else { lo[i].clone() }));
    }
    let f = [[0, 4, 6, 2], [1, 3, 7, 5], [0, 1, 5, 4], [2, 6, 7, 3], [0, 2, 3, 1], [4, 5, 7, 6]];
    for (i, q) in f.iter().enumerate() {
        s.quad(q[0], q[1], q[2], q[3], diag[i]);
    }
    s
}
pub fn bipyramid(n: usize) -> Soup<3> {
    let d = ring_dirs(n);
    let n = d.len();
    let mut s = Soup::default();
    for (x, y) in &d {
        s.p.push([qi(*x), qi(*y), qi(0)]);
    }
    s.p.push([qi(0), qi(0), qi(3)]);
    s.p.push([qi(0), qi(0), qi(-2)]);
    for i in 0..n {
        let j = (i + 1) % n;
        s.t.push([i, j, n]);
        s.t.push([j, i, n + 1]);
    }
    s
}
pub fn prism(c: &mut Case, n: usize) -> Soup<3> {
    let d = ring_dirs(n);
    let n = d.len();
    let mut s = Soup::default();
    for z in [-2, 2] {
        for (x, y) in &d {
            s.p.push([qi(*x), qi(*y), qi(z)]);
        }
    }
    for i in 0..n {
        let j = (i + 1) % n;
        let dg = c.s.bool();
        s.quad(i, j, n + j, n + i, dg);
    }
    for i in 1..n - 1 {
        s.t.push([0, i + 1, i]);
        s.t.push([n, n + i, n + i + 1]);
    }
    s
}
/// Star-shaped closed surface about the origin: latitude/longitude directions, random radii.
pub fn star(c: &mut Case, n: usize, bands: usize, wild: bool) -> Soup<3> {
    let d = ring_dirs(n);
    let n = d.len();
    let mut s = Soup::default();
    // rings of a convex profile
    let prof: Vec<(i64, i64)> = match bands {
        1 => vec![(0, 4)],
        2 => vec![(-2, 3), (2, 3)],
        _ => vec![(-3, 2), (0, 4), (3, 2)],
    };
    let rad = |c: &mut Case| -> Q {
        if wild { Q::nd(1 + c.s.below(12) as i64, 4) } else { Q::i(1) }
    };
    for (z, r) in &prof {
        for (x, y) in &d {
            let k = rad(c);
            s.p.push([&Q::nd(x * r, 4) * &k, &Q::nd(y * r, 4) * &k, &qi(*z) * &k]);
        }
    }
    let top = s.p.len();
    let k = rad(c);
    s.p.push([qi(0), qi(0), &qi(5) * &k]);
    let k = rad(c);
    s.p.push([qi(0), qi(0), &qi(-5) * &k]);
    for b in 0..prof.len() - 1 {
        for i in 0..n {
            let j = (i + 1) % n;
            let dg = c.s.bool();
            s.quad(b * n + i, b * n + j, (b + 1) * n + j, (b + 1) * n + i, dg);
        }
    }
    let last = (prof.len() - 1) * n;
    for i in 0..n {
        let j = (i + 1) % n;
        s.t.push([last + i, last + j, top]);
        s.t.push([j, i, top + 1]);
    }
    s
}
/// square-section torus: n sectors, outer/inner radius
pub fn torus(c: &mut Case, n: usize) -> Soup<3> {
    let d = ring_dirs(n);
    let n = d.len();
    let mut s = Soup::default();
    // profile counter-clockwise in (radius, z): orientation outwards
    let prof = [(1i64, -1i64), (3, -1), (3, 1), (1, 1)];
    for (r, z) in prof {
        for (x, y) in &d {
            s.p.push([qi(x * r), qi(y * r), qi(z)]);
        }
    }
    for k in 0..4 {
        let k2 = (k + 1) % 4;
        for i in 0..n {
            let j = (i + 1) % n;
            let dg = c.s.bool();
            s.quad(k * n + i, k * n + j, k2 * n + j, k2 * n + i, dg);
        }
    }
    s
}
/// boundary of a set of unit cells of a 3x3x3 grid, retried until it is a vertex-manifold closed surface
pub fn polycube(c: &mut Case, cells: usize) -> Soup<3> {
    let mut set: BTreeSet<[i64; 3]> = BTreeSet::new();
    set.insert([0, 0, 0]);
    for _ in 1..cells {
        let v: Vec<[i64; 3]> = set.iter().copied().collect();
        let base = v[c.s.below(v.len())];
        let ax = c.s.below(3);
        let mut nb = base;
        nb[ax] += if c.s.bool() { 1 } else { -1 };
        set.insert(nb);
        let s = cells_surface(c, &set, false);
        if edge_uses(&s.t).is_none() || !vertex_manifold(&s.t) {
            set.remove(&nb);
        }
    }
    cells_surface(c, &set, true)
}
pub fn cells_surface(c: &mut Case, set: &BTreeSet<[i64; 3]>, random_diag: bool) -> Soup<3> {
    let mut s: Soup<3> = Soup::default();
    let mut id: BTreeMap<[i64; 3], usize> = BTreeMap::new();
    // quads (offsets) seen counter-clockwise from outside
    let f: [([i64; 3], [[i64; 3]; 4]); 6] = [
        ([-1, 0, 0], [[0, 0, 0], [0, 0, 1], [0, 1, 1], [0, 1, 0]]),
        ([1, 0, 0], [[1, 0, 0], [1, 1, 0], [1, 1, 1], [1, 0, 1]]),
        ([0, -1, 0], [[0, 0, 0], [1, 0, 0], [1, 0, 1], [0, 0, 1]]),
        ([0, 1, 0], [[0, 1, 0], [0, 1, 1], [1, 1, 1], [1, 1, 0]]),
        ([0, 0, -1], [[0, 0, 0], [0, 1, 0], [1, 1, 0], [1, 0, 0]]),
        ([0, 0, 1], [[0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]),
    ];
    for cell in set {
        for (d, q) in &f {
            let nb = [cell[0] + d[0], cell[1] + d[1], cell[2] + d[2]];
            if set.contains(&nb) {
                continue;
            }
            let mut v = [0; 4];
            for (k, o) in q.iter().enumerate() {
                let key = [cell[0] + o[0], cell[1] + o[1], cell[2] + o[2]];
                let n = s.p.len();
                v[k] = *id.entry(key).or_insert(n);
                if v[k] == n {
                    s.p.push([qi(key[0]), qi(key[1]), qi(key[2])]);
                }
            }
            let dg = random_diag && c.s.bool();
            s.quad(v[0], v[1], v[2], v[3], dg);
        }
    }
    s
}
/// cube with every side divided into k x k cells
pub fn grid_cube(c: &mut Case, k: i64) -> Soup<3> {
    let mut set = BTreeSet::new();
    for x in 0..k {
        for y in 0..k {
            for z in 0..k {
                set.insert([x, y, z]);
            }
        }
    }
    cells_surface(c, &set, true)
}
/// orientation-preserving affine map with a small integer/dyadic matrix
pub fn affine(c: &mut Case, s: &mut Soup<3>, rational: bool) {
    let mut m = [[0i64; 3]; 3];
    for (i, r) in m.iter_mut().enumerate() {
        r[i] = 1;
    }
    if c.s.chance(1, 2) {
        // shears
        for _ in 0..2 {
            let i = c.s.below(3);
            let j = (i + 1 + c.s.below(2)) % 3;
            let k = c.s.int(-1, 1);
            for col in 0..3 {
                m[i][col] += k * m[j][col];
            }
        }
    }
    if c.s.chance(1, 3) {
        m.rotate_left(1); // even permutation keeps orientation
    }
    let sc = if rational { [Q::i(1), Q::nd(1, 3), Q::nd(7, 5), Q::i(2)][c.s.below(4)].clone() } else { [Q::i(1), Q::nd(1, 2), Q::i(2)][c.s.below(3)].clone() };
    let off: [Q; 3] = std::array::from_fn(|_| if rational { Q::nd(c.s.int(-14, 14), 7) } else { Q::nd(c.s.int(-16, 16), 4) });
    for p in s.p.iter_mut() {
        let q: [Q; 3] = std::array::from_fn(|i| {
            let mut a = Q::i(0);
            for j in 0..3 {
                a = &a + &(&p[j] * &Q::i(m[i][j]));
            }
            &(&a * &sc) + &off[i]
        });
        *p = q;
    }
}
/// closed, embedded, outward-oriented, vertex-manifold surface (one component)
pub fn gen_closed(c: &mut Case, big: bool, rational: bool) -> Soup<3> {
    let k = c.s.below(if big { 8 } else { 6 });
    let mut s = match k {
        0 => {
            c.label("tetra");
            tetra()
        }
        1 => {
            c.label("bipyramid");
            let n = 3 + c.s.below(4);
            bipyramid(n)
        }
        2 => {
            c.label("box");
            let d = std::array::from_fn(|_| c.s.bool());
            let hi = std::array::from_fn(|_| qi(1 + c.s.below(4) as i64));
            cuboid(&[qi(0), qi(0), qi(0)], &hi, &d)
        }
        3 => {
            c.label("prism");
            let n = 3 + c.s.below(4);
            prism(c, n)
        }
        4 => {
            c.label("star");
            let n = 3 + c.s.below(4);
            let b = 1 + c.s.below(2);
            star(c, n, b, true)
        }
        5 => {
            c.label("polycube");
            let n = 2 + c.s.below(4);
            polycube(c, n)
        }
        6 => {
            c.label("torus");
            let n = 3 + c.s.below(3);
            torus(c, n)
        }
        _ => {
            c.label("grid-cube");
            let n = 2 + c.s.below(2) as i64;
            grid_cube(c, n)
        }
    };
    affine(c, &mut s, rational);
    s.shuffle(c);
    s
}
/// planar triangulation: jittered grid, fan, with faces possibly dropped; counter-clockwise
pub fn gen_planar(c: &mut Case, rational: bool) -> Soup<2> {
    let mut s: Soup<2> = Soup::default();
    if c.s.chance(1, 3) {
        c.label("fan");
        let n = 3 + c.s.below(4);
        let d = ring_dirs(n);
        let n = d.len();
        for (x, y) in &d {
            let k = Q::nd(1 + c.s.below(8) as i64, 4);
            s.p.push([&qi(*x) * &k, &qi(*y) * &k]);
        }
        s.p.push([qi(0), qi(0)]);
        for i in 0..n {
            s.t.push([i, (i + 1) % n, n]);
        }
    } else {
        c.label("grid");
        let w = 1 + c.s.below(4);
        let h = 1 + c.s.below(3);
        let jitter = c.s.bool();
        let den = if rational { 10 } else { 8 };
        for y in 0..=h {
            for x in 0..=w {
                let mut q = [qi(x as i64), qi(y as i64)];
                if jitter {
                    for k in q.iter_mut() {
                        // below a quarter of a cell: no triangle can degenerate or turn over
                        let j = if rational { c.s.int(-2, 2) } else { c.s.int(-1, 1) };
                        *k = &*k + &Q::nd(j, den);
                    }
                }
                s.p.push(q);
            }
        }
        let id = |x: usize, y: usize| y * (w + 1) + x;
        for y in 0..h {
            for x in 0..w {
                let dg = c.s.bool();
                s.quad(id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1), dg);
            }
        }
    }
    if s.t.len() > 2 && c.s.chance(1, 3) {
        c.label("faces-dropped");
        let n = 1 + c.s.below(3);
        for _ in 0..n {
            if s.t.len() > 1 {
                let k = c.s.below(s.t.len());
                let old = s.t.clone();
                s.t.remove(k);
                if !vertex_manifold(&s.t) {
                    s.t = old;
                }
            }
        }
        s.drop_unused();
    }
    s.shuffle(c);
    s
}
/// lift a planar mesh to 3D as a height field
pub fn lift(c: &mut Case, s: &Soup<2>, flat: bool) -> Soup<3> {
    let p = s.p.iter().map(|q| [q[0].clone(), q[1].clone(), if flat { qi(0) } else { Q::nd(c.s.int(-4, 4), 2) }]).collect();
    Soup { p, t: s.t.clone() }
}
/// open or closed surface in space
pub fn gen_surface(c: &mut Case, big: bool, rational: bool) -> Soup<3> {
    match c.s.weighted(&[3, 2, 2]) {
        0 => gen_closed(c, big, rational),
        1 => {
            let mut s = gen_closed(c, big, rational);
            c.label("holes");
            let n = 1 + c.s.below(3);
            for _ in 0..n {
                if s.t.len() > 1 {
                    let k = c.s.below(s.t.len());
                    let old = s.t.clone();
                    s.t.remove(k);
                    if !vertex_manifold(&s.t) {
                        s.t = old;
                    }
                }
            }
            s.drop_unused();
            s
        }
        _ => {
            let p = gen_planar(c, rational);
            let flat = c.s.chance(1, 3);
            let mut s = lift(c, &p, flat);
            affine(c, &mut s, rational);
            s
        }
    }
}

/// Build the library mesh triangle by triangle; every triangle must be accepted as given.
#[macro_export]
macro_rules! build_mesh {
    ($T:ty, $N:expr, $s:expr) => {{
        let mut m: cgar::mesh::basic_types::Mesh<$T, $N> = cgar::mesh::basic_types::Mesh::new();
        for p in &$s.p {
            m.add_vertex($crate::num::pt(p));
        }
        for t in &$s.t {
            m.add_triangle(t[0], t[1], t[2]);
        }
        m
    }};
}

pub fn live_faces<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Vec<usize> {
    (0..m.faces.len()).filter(|&f| !m.faces[f].removed).collect()
}
/// vertices of a live face read straight from the half-edge cycle
pub fn face_tri<T: Scalar, const N: usize>(m: &Mesh<T, N>, f: usize) -> Result<[usize; 3], String> {
    let n = m.half_edges.len();
    let h0 = m.faces[f].half_edge;
    ensure!(h0 < n, "face {f}: half-edge {h0} out of range");
    let h1 = m.half_edges[h0].next;
    ensure!(h1 < n, "face {f}: next out of range");
    let h2 = m.half_edges[h1].next;
    ensure!(h2 < n, "face {f}: next out of range");
    ensure!(m.half_edges[h2].next == h0, "face {f}: half-edge cycle is not a triangle");
    Ok([m.half_edges[h2].vertex, m.half_edges[h0].vertex, m.half_edges[h1].vertex])
}
pub fn tris<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Result<Vec<[usize; 3]>, String> {
    live_faces(m).into_iter().map(|f| face_tri(m, f)).collect()
}

/// What the audit demands of border half-edges.
#[derive(Clone, Copy, PartialEq)]
pub enum Borders {
    /// every border half-edge lies on a closed border loop
    Linked,
    /// border half-edges may be unlinked (documented to need build_boundary_loops first)
    Loose,
}

/// Full consistency audit of the half-edge structure; returns the live triangles.
pub fn audit<T: Scalar, const N: usize>(m: &Mesh<T, N>, b: Borders) -> Result<Vec<[usize; 3]>, String> {
    let nh = m.half_edges.len();
    let nf = m.faces.len();
    let nv = m.vertices.len();
    let mut ts = vec![];
    let mut owner: BTreeMap<usize, usize> = BTreeMap::new();
    for f in live_faces(m) {
        let t = face_tri(m, f)?;
        ensure!(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "face {f} repeats a vertex: {t:?}");
        let mut h = m.faces[f].half_edge;
        for _ in 0..3 {
            let he = &m.half_edges[h];
            ensure!(!he.removed, "face {f} uses removed half-edge {h}");
            ensure!(he.face == Some(f), "half-edge {h} of face {f} records face {:?}", he.face);
            ensure!(m.half_edges[he.next].prev == h, "prev(next({h})) is not {h} in face {f}");
            ensure!(he.vertex < nv && !m.vertices[he.vertex].removed, "face {f} uses removed vertex {}", he.vertex);
            owner.insert(h, f);
            h = he.next;
        }
        ts.push(t);
    }
    let mut dirs: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for h in 0..nh {
        let he = &m.half_edges[h];
        if he.removed {
            continue;
        }
        ensure!(he.twin < nh, "half-edge {h} has no twin");
        let tw = &m.half_edges[he.twin];
        ensure!(!tw.removed, "half-edge {h} has removed twin {}", he.twin);
        ensure!(tw.twin == h, "twin(twin({h})) is {}", tw.twin);
        ensure!(he.twin != h, "half-edge {h} is its own twin");
        let src = tw.vertex;
        ensure!(src != he.vertex, "half-edge {h} is a loop at vertex {src}");
        match he.face {
            Some(f) => {
                ensure!(f < nf && !m.faces[f].removed, "live half-edge {h} on removed face {f}");
                ensure!(owner.get(&h) == Some(&f), "half-edge {h} records face {f} but is not on its cycle");
                ensure!(m.half_edges[he.prev].vertex == src, "half-edge {h}: origin by prev and by twin differ");
            }
            None => {
                ensure!(tw.face.is_some(), "edge of half-edge {h} has no face on either side");
                if b == Borders::Linked {
                    ensure!(he.next < nh && he.prev < nh, "border half-edge {h} unlinked");
                    let (nx, pv) = (&m.half_edges[he.next], &m.half_edges[he.prev]);
                    ensure!(!nx.removed && !pv.removed, "border half-edge {h} linked to a removed half-edge");
                    ensure!(nx.face.is_none() && pv.face.is_none(), "border half-edge {h} linked into a face");
                    ensure!(nx.prev == h && pv.next == h, "border links of half-edge {h} not mutual");
                    ensure!(pv.vertex == src, "border half-edge {h}: previous border edge ends at {} not {src}", pv.vertex);
                    ensure!(m.half_edges[nx.twin].vertex == he.vertex, "border half-edge {h}: next border edge starts elsewhere");
                }
            }
        }
        if let Some(o) = dirs.insert((src, he.vertex), h) {
            return Err(format!("two live half-edges {o} and {h} for directed edge ({src},{})", he.vertex));
        }
    }
    for (k, h) in &dirs {
        ensure!(m.edge_map.get(k) == Some(h), "edge lookup {k:?} gives {:?}, the live half-edge is {h}", m.edge_map.get(k));
    }
    for (k, h) in m.edge_map.iter() {
        ensure!(dirs.get(k) == Some(h), "edge lookup has a stale entry {k:?} -> {h}");
    }
    let used: BTreeSet<usize> = ts.iter().flatten().copied().collect();
    for v in 0..nv {
        match m.vertices[v].half_edge {
            Some(h) => {
                ensure!(h < nh && !m.half_edges[h].removed, "vertex {v} points at removed half-edge {h}");
                let tw = m.half_edges[h].twin;
                ensure!(m.half_edges[tw].vertex == v, "vertex {v}: half-edge {h} starts at {}", m.half_edges[tw].vertex);
            }
            None => ensure!(!used.contains(&v), "vertex {v} is used by a face but has no half-edge"),
        }
    }
    Ok(ts)
}
pub fn expect_tris(got: &[[usize; 3]], want: &[[usize; 3]]) -> Result<(), String> {
    let (a, b) = (norm_tris(got), norm_tris(want));
    if a != b {
        let extra: Vec<_> = a.iter().filter(|t| !b.contains(t)).collect();
        let missing: Vec<_> = b.iter().filter(|t| !a.contains(t)).collect();
        return Err(format!("triangle set differs: unexpected {extra:?}, missing {missing:?}"));
    }
    Ok(())
}
/// positions of the live triangles as exact corner triples
pub fn exact_tris<T: Num, const N: usize>(m: &Mesh<T, N>) -> Result<Vec<[[Q; N]; 3]>, String> {
    let ts = tris(m)?;
    let ps: Vec<[Q; N]> = m.vertices.iter().map(|v| unpt(&v.position)).collect();
    Ok(ts.iter().map(|t| [ps[t[0]].clone(), ps[t[1]].clone(), ps[t[2]].clone()]).collect())
}

//! Exact reference geometry over rationals; independent of the library under test.
#![allow(dead_code)]
use rug::Rational;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Q(pub Rational);

impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
macro_rules! op {
    ($tr:ident,$f:ident,$o:tt) => {
        impl<'a> $tr<&'a Q> for &'a Q { type Output = Q; fn $f(self, r: &'a Q) -> Q { Q(Rational::from(&self.0 $o &r.0)) } }
        impl $tr<Q> for Q { type Output = Q; fn $f(self, r: Q) -> Q { Q(self.0 $o r.0) } }
        impl<'a> $tr<&'a Q> for Q { type Output = Q; fn $f(self, r: &'a Q) -> Q { Q(self.0 $o &r.0) } }
        impl<'a> $tr<Q> for &'a Q { type Output = Q; fn $f(self, r: Q) -> Q { Q(&self.0 $o r.0) } }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q(-self.0)
    }
}
impl<'a> Neg for &'a Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q(-self.0.clone())
    }
}
impl Q {
    pub fn i(n: i64) -> Q {
        Q(Rational::from(n))
    }
    pub fn nd(n: i64, d: i64) -> Q {
        Q(Rational::from((n, d)))
    }
    pub fn f(x: f64) -> Q {
        Q(Rational::from_f64(x).unwrap())
    }
    pub fn zero() -> Q {
        Q::i(0)
    }
    pub fn sgn(&self) -> i8 {
        match self.0.cmp0() {
            Ordering::Less => -1,
            Ordering::Equal => 0,
            Ordering::Greater => 1,
        }
    }
    pub fn is0(&self) -> bool {
        self.sgn() == 0
    }
    pub fn abs(&self) -> Q {
        Q(self.0.clone().abs())
    }
    pub fn to_f64(&self) -> f64 {
        self.0.to_f64()
    }
    pub fn is_dyadic_f64(&self) -> bool {
        let x = self.0.to_f64();
        x.is_finite() && Rational::from_f64(x).map_or(false, |r| r == self.0)
    }
}
pub fn qmin(a: &Q, b: &Q) -> Q {
    if a <= b { a.clone() } else { b.clone() }
}
pub fn qmax(a: &Q, b: &Q) -> Q {
    if a >= b { a.clone() } else { b.clone() }
}

pub type V3 = [Q; 3];
pub type V2 = [Q; 2];

pub fn v3(a: i64, b: i64, c: i64) -> V3 {
    [Q::i(a), Q::i(b), Q::i(c)]
}
pub fn subn<const N: usize>(a: &[Q; N], b: &[Q; N]) -> [Q; N] {
    std::array::from_fn(|i| &a[i] - &b[i])
}
pub fn addn<const N: usize>(a: &[Q; N], b: &[Q; N]) -> [Q; N] {
    std::array::from_fn(|i| &a[i] + &b[i])
}
pub fn scalen<const N: usize>(a: &[Q; N], s: &Q) -> [Q; N] {
    std::array::from_fn(|i| &a[i] * s)
}
pub fn lerpn<const N: usize>(a: &[Q; N], b: &[Q; N], t: &Q) -> [Q; N] {
    std::array::from_fn(|i| &a[i] + &(&(&b[i] - &a[i]) * t))
}
pub fn dotn<const N: usize>(a: &[Q; N], b: &[Q; N]) -> Q {
    let mut s = Q::zero();
    for i in 0..N {
        s = s + &a[i] * &b[i];
    }
    s
}
pub fn cross3(a: &V3, b: &V3) -> V3 {
    [
        &(&a[1] * &b[2]) - &(&a[2] * &b[1]),
        &(&a[2] * &b[0]) - &(&a[0] * &b[2]),
        &(&a[0] * &b[1]) - &(&a[1] * &b[0]),
    ]
}
pub fn is0n<const N: usize>(a: &[Q; N]) -> bool {
    a.iter().all(|x| x.is0())
}
/// (b-a) x (c-a)
pub fn orient2(a: &V2, b: &V2, c: &V2) -> Q {
    let u = subn(b, a);
    let v = subn(c, a);
    &(&u[0] * &v[1]) - &(&u[1] * &v[0])
}
/// (b-a) . ((c-a) x (d-a))
pub fn orient3(a: &V3, b: &V3, c: &V3, d: &V3) -> Q {
    dotn(&subn(b, a), &cross3(&subn(c, a), &subn(d, a)))
}
pub fn incircle(a: &V2, b: &V2, c: &V2, d: &V2) -> Q {
    let r = |p: &V2| {
        let u = subn(p, d);
        let s = dotn(&u, &u);
        [u[0].clone(), u[1].clone(), s]
    };
    let (x, y, z) = (r(a), r(b), r(c));
    dotn(&x, &cross3(&y, &z))
}
pub fn d2<const N: usize>(a: &[Q; N], b: &[Q; N]) -> Q {
    let u = subn(a, b);
    dotn(&u, &u)
}
pub fn collinear<const N: usize>(a: &[Q; N], b: &[Q; N], c: &[Q; N]) -> bool {
    let u = subn(b, a);
    let v = subn(c, a);
    for i in 0..N {
        for j in i + 1..N {
            if &u[i] * &v[j] != &u[j] * &v[i] {
                return false;
            }
        }
    }
    true
}
pub fn on_segment<const N: usize>(p: &[Q; N], a: &[Q; N], b: &[Q; N]) -> bool {
    if a == b {
        return p == a;
    }
    if !collinear(a, b, p) {
        return false;
    }
    let t = dotn(&subn(p, a), &subn(b, a));
    t.sgn() >= 0 && t <= d2(a, b)
}
/// position of p in closed triangle (2D): 0 outside, 1 inside, 2 on open edge, 3 vertex
pub fn in_tri2(p: &V2, a: &V2, b: &V2, c: &V2) -> u8 {
    if p == a || p == b || p == c {
        return 3;
    }
    let s = orient2(a, b, c).sgn();
    let x = orient2(a, b, p).sgn() * s;
    let y = orient2(b, c, p).sgn() * s;
    let z = orient2(c, a, p).sgn() * s;
    if x < 0 || y < 0 || z < 0 {
        0
    } else if x == 0 || y == 0 || z == 0 {
        2
    } else {
        1
    }
}
/// barycentric coordinates of p's projection onto the plane of (a,b,c)
pub fn bary3(p: &V3, a: &V3, b: &V3, c: &V3) -> [Q; 3] {
    let n = cross3(&subn(b, a), &subn(c, a));
    let nn = dotn(&n, &n);
    let w0 = dotn(&cross3(&subn(c, b), &subn(p, b)), &n) / nn.clone();
    let w1 = dotn(&cross3(&subn(a, c), &subn(p, c)), &n) / nn.clone();
    let w2 = Q::i(1) - &w0 - &w1;
    [w0, w1, w2]
}
/// p in closed triangle in 3D (exactly coplanar): 0 no, 1 inside, 2 edge, 3 vertex
pub fn in_tri3(p: &V3, a: &V3, b: &V3, c: &V3) -> u8 {
    if !orient3(a, b, c, p).is0() {
        return 0;
    }
    if p == a || p == b || p == c {
        return 3;
    }
    let w = bary3(p, a, b, c);
    if w.iter().any(|x| x.sgn() < 0) {
        0
    } else if w.iter().any(|x| x.is0()) {
        2
    } else {
        1
    }
}
/// six times the signed volume enclosed by an oriented triangle set
pub fn vol6(pts: &[V3], tris: &[[usize; 3]]) -> Q {
    let mut s = Q::zero();
    for t in tris {
        s = s + dotn(&pts[t[0]], &cross3(&pts[t[1]], &pts[t[2]]));
    }
    s
}
/// Winding number of a closed oriented triangle set around p via generic ray parity; None if degenerate for this ray.
pub fn winding(p: &V3, dir: &V3, pts: &[V3], tris: &[[usize; 3]]) -> Option<i32> {
    let mut w = 0;
    let q = addn(p, dir);
    for t in tris {
        let (a, b, c) = (&pts[t[0]], &pts[t[1]], &pts[t[2]]);
        let s1 = orient3(p, &q, a, b).sgn();
        let s2 = orient3(p, &q, b, c).sgn();
        let s3 = orient3(p, &q, c, a).sgn();
        if (s1 > 0 || s2 > 0 || s3 > 0) && (s1 < 0 || s2 < 0 || s3 < 0) {
            continue;
        }
        if s1 == 0 || s2 == 0 || s3 == 0 {
            // line touches an edge or the triangle is seen edge-on
            if s1 == 0 && s2 == 0 && s3 == 0 {
                // coplanar with the line or degenerate: only harmless if the whole triangle is away; be safe
                return None;
            }
            // may still miss on the ray side, but be conservative
            return None;
        }
        let n = cross3(&subn(b, a), &subn(c, a));
        let den = dotn(dir, &n);
        let num = dotn(&subn(a, p), &n);
        let tt = num / den.clone();
        match tt.sgn() {
            0 => return None,
            1 => w += if den.sgn() > 0 { 1 } else { -1 },
            _ => {}
        }
    }
    Some(w)
}
pub fn fmtv<const N: usize>(p: &[Q; N]) -> String {
    let v: Vec<String> = p.iter().map(|x| format!("{}", x.0)).collect();
    format!("({})", v.join(","))
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

//! The three number types seen through one conversion interface.
#![allow(dead_code)]
use crate::q::{Q, V2, V3};
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;

pub trait Num: Scalar {
    const EXACT: bool;
    const NAME: &'static str;
    fn of(q: &Q) -> Self;
    fn q(&self) -> Q;
}
impl Num for CgarF64 {
    const EXACT: bool = false;
    const NAME: &'static str = "f64";
    fn of(q: &Q) -> Self {
        CgarF64(q.to_f64())
    }
    fn q(&self) -> Q {
        Q::f(self.0)
    }
}
impl Num for CgarRational {
    const EXACT: bool = true;
    const NAME: &'static str = "rational";
    fn of(q: &Q) -> Self {
        CgarRational(q.0.clone())
    }
    fn q(&self) -> Q {
        Q(self.0.clone())
    }
}
impl Num for LazyExact {
    const EXACT: bool = true;
    const NAME: &'static str = "lazy";
    fn of(q: &Q) -> Self {
        LazyExact::from(CgarRational(q.0.clone()))
    }
    fn q(&self) -> Q {
        Q(self.exact().0)
    }
}
pub fn pt<T: Num, const N: usize>(p: &[Q; N]) -> Point<T, N> {
    Point { coords: std::array::from_fn(|i| T::of(&p[i])) }
}
pub fn unpt<T: Num, const N: usize>(p: &Point<T, N>) -> [Q; N] {
    std::array::from_fn(|i| p.coords[i].q())
}
pub fn finite<T: Num, const N: usize>(p: &Point<T, N>) -> bool {
    T::EXACT || p.coords.iter().all(|c| c.ball_center_f64().is_finite())
}
pub type P3 = V3;
pub type P2 = V2;
pub type M3<T> = Mesh<T, 3>;

//! Equality / order / hash / conversion contracts of the number types.
use crate::case::{Case, R, Spec};
use crate::num::Num;
use crate::props::numgen::*;
use crate::q::Q;
use crate::{by_num, ensure, gfn};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, RefInto};
use std::cmp::Ordering;
use std::hash::BuildHasher;

pub const SPEC: Spec = Spec {
    id: "C03",
    rule: "at least two of the three generated values are distinct and non-zero",
    quick: 1_500_000,
    thorough: 10_000_000,
    fresh_thread: false,
    run,
};

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    ahash::RandomState::with_seeds(5, 6, 7, 8).hash_one(x)
}

/// double closest to the value, away from it by less than one unit in the last place
fn near(x: f64, q: &Q) -> bool {
    if !x.is_finite() {
        return true;
    }
    let lo = x.next_down();
    let hi = x.next_up();
    (!lo.is_finite() || Q::f(lo) < *q) && (!hi.is_finite() || *q < Q::f(hi))
}

const EPS: f64 = 1e-10;

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

gfn! {
fn go(c: &mut Case) -> R {
    let wide = c.s.chance(1, 4);
    let mut q: Vec<Q> = vec![];
    let mut v: Vec<T> = vec![];
    for k in 0..3 {
        let x = if k > 0 && c.s.chance(1, 3) {
            // equal or nearly equal to an earlier one
            let b = q[k - 1].to_f64();
            if b.is_finite() && T::EXACT == false { let d = c.s.int(-2, 2); Q::f(nudge(b, d)) }
            else if b.is_finite() { let d = c.s.int(-2, 2); if d == 0 { q[k-1].clone() } else { Q::f(nudge(b, d)) } }
            else { q[k - 1].clone() }
        } else if T::EXACT && c.s.bool() { gen_q(c, wide) } else { Q::f(gen_f64(c, wide)) };
        v.push(T::of(&x));
        q.push(x);
    }
    c.note(|| format!("{} a={:?} b={:?} c={:?}", T::NAME, q[0], q[1], q[2]));
    c.nontrivial = q.iter().filter(|x| !x.is0()).count() >= 2 && (q[0] != q[1] || q[1] != q[2]);
    for i in 0..3 { for j in 0..3 {
        let (a, b) = (&v[i], &v[j]);
        c.checks += 1;
        // equality and hashing
        let eq = a == b;
        ensure!(eq == (b == a), "== not symmetric");
        if eq { ensure!(hash(a) == hash(b), "equal values hash differently: {:?} {:?}", q[i], q[j]); }
        ensure!(eq == (q[i] == q[j]), "== is {} for {:?},{:?}", eq, q[i], q[j]);
        // reference order
        let o = T::cmp_ref(a, b);
        ensure!(o == q[i].cmp(&q[j]), "cmp_ref({:?},{:?})={:?}", q[i], q[j], o);
        ensure!(o == T::cmp_ref(b, a).reverse(), "cmp_ref not antisymmetric for {:?},{:?}", q[i], q[j]);
        // operators
        let pc = a.partial_cmp(b);
        let diff = &q[i] - &q[j];
        if T::EXACT {
            ensure!(pc == Some(q[i].cmp(&q[j])), "partial_cmp({:?},{:?})={:?}", q[i], q[j], pc);
            ensure!((a - b).sign() == diff.sgn(), "sign(a-b) wrong for {:?},{:?}", q[i], q[j]);
        } else {
            let d = diff.abs();
            // f64 orders with a fixed absolute tolerance
            if d > Q::f(1.01e-10) { ensure!(pc == Some(q[i].cmp(&q[j])), "partial_cmp({:?},{:?})={:?}", q[i], q[j], pc); }
            if d < Q::f(0.99e-10) { ensure!(pc == Some(Ordering::Equal), "partial_cmp({:?},{:?})={:?}", q[i], q[j], pc); }
            ensure!(pc.map(|x| x.reverse()) == b.partial_cmp(a), "partial_cmp not antisymmetric");
        }
        // min / max return one of the two and are consistent
        let mn = T::min(a.clone(), b.clone()).q();
        let mx = T::max(a.clone(), b.clone()).q();
        if T::EXACT || diff.abs() > Q::f(1.01e-10) {
            ensure!(mn == crate::q::qmin(&q[i], &q[j]) && mx == crate::q::qmax(&q[i], &q[j]), "min/max wrong for {:?},{:?}", q[i], q[j]);
        } else {
            ensure!((mn == q[i] || mn == q[j]) && (mx == q[i] || mx == q[j]), "min/max invented a value");
        }
        let ae = a.approx_eq(b);
        if diff.is0() { ensure!(ae, "approx_eq not reflexive for {:?}", q[i]); }
        ensure!(ae == b.approx_eq(a), "approx_eq not symmetric for {:?},{:?}", q[i], q[j]);
        if diff.abs() > Q::f(1e-8) + (q[i].abs() + q[j].abs()) * Q::f(1e-14) { ensure!(!ae, "approx_eq({:?},{:?})", q[i], q[j]); }
        // arithmetic
        let ops = [(a + b, &q[i] + &q[j], "+"), (a - b, &q[i] - &q[j], "-"), (a * b, &q[i] * &q[j], "*"),
                   (a.clone() + b.clone(), &q[i] + &q[j], "+"), (a.clone() - b.clone(), &q[i] - &q[j], "-"), (a.clone() * b.clone(), &q[i] * &q[j], "*")];
        for (r, e, n) in ops.iter() {
            if T::EXACT { ensure!(r.q() == *e, "{:?} {} {:?} = {:?}", q[i], n, q[j], r.q()); }
            else { arith(r.ball_center_f64(), e, n)?; }
        }
        let mut s = a.clone(); s += b;
        let mut d = a.clone(); d -= b;
        if T::EXACT { ensure!(s.q() == &q[i] + &q[j] && d.q() == &q[i] - &q[j], "+=/-= wrong for {:?},{:?}", q[i], q[j]); }
        else { arith(s.ball_center_f64(), &(&q[i] + &q[j]), "+=")?; arith(d.ball_center_f64(), &(&q[i] - &q[j]), "-=")?; }
        if !q[j].is0() {
            let e = &q[i] / &q[j];
            let r = a / b;
            if T::EXACT { ensure!(r.q() == e && (a.clone() / b.clone()).q() == e, "{:?} / {:?} = {:?}", q[i], q[j], r.q()); } else { arith(r.ball_center_f64(), &e, "/")?; arith((a.clone() / b.clone()).ball_center_f64(), &e, "/")?; }
        }
    } }
    for i in 0..3 {
        let (a, x) = (&v[i], &q[i]);
        c.checks += 1;
        ensure!((-a).q() == -x && (-a.clone()).q() == -x, "negation of {:?}", x);
        ensure!(a.abs().q() == x.abs(), "abs of {:?}", x);
        let s = a.sign();
        if T::EXACT || x.abs() > Q::f(1.01e-10) {
            ensure!(s == x.sgn(), "sign({:?})={}", x, s);
            ensure!(a.is_zero() == x.is0() && a.is_positive() == (x.sgn() > 0) && a.is_negative() == (x.sgn() < 0), "sign tests of {:?}", x);
            ensure!(a.is_positive_or_zero() == (x.sgn() >= 0) && a.is_negative_or_zero() == (x.sgn() <= 0), "sign tests of {:?}", x);
        } else if x.abs() < Q::f(0.99e-10) {
            ensure!(s == 0 && a.is_zero() && !a.is_positive() && !a.is_negative() && a.is_positive_or_zero() && a.is_negative_or_zero(), "sign tests of tiny {:?}", x);
        }
        if let Some((lo, hi)) = a.double_interval() {
            let ok = (!lo.is_finite() || Q::f(lo) <= *x) && (!hi.is_finite() || *x <= Q::f(hi)) && lo <= hi;
            ensure!(ok && lo != f64::INFINITY && hi != f64::NEG_INFINITY, "interval [{:e},{:e}] misses {:?}", lo, hi, x);
            // and it is not absurdly wide for a leaf
            if x.to_f64().is_finite() && lo.is_finite() && hi.is_finite() && x.abs() > Q::f(1e-290) && x.abs() < Q::f(1e290) {
                ensure!(Q::f(hi) - Q::f(lo) <= x.abs() * Q::f(1e-14), "interval [{:e},{:e}] too wide for {:?}", lo, hi, x);
            }
        }
        // to double
        if x.to_f64().is_finite() {
            let f = a.to_f64().unwrap();
            ensure!(near(f, x), "to_f64({:?})={:e}", x, f);
            let f2: CgarF64 = a.clone().into();
            ensure!(near(f2.0, x), "into f64 ({:?})={:e}", x, f2.0);
            let f3: CgarF64 = a.ref_into();
            ensure!(near(f3.0, x), "ref_into f64 ({:?})={:e}", x, f3.0);
            ensure!(near(a.ball_center_f64(), x), "ball_center_f64({:?})={:e}", x, a.ball_center_f64());
            if let Some(f4) = a.as_f64_fast() { ensure!(near(f4, x), "as_f64_fast({:?})={:e}", x, f4); }
            if x.is_dyadic_f64() {
                ensure!(Q::f(f) == *x && Q::f(f2.0) == *x && Q::f(f3.0) == *x, "double round trip of {:?} lost value", x);
                // back into every type, every route
                let d = CgarF64(x.to_f64());
                ensure!(T::from(d.0).q() == *x && T::from(d.clone()).q() == *x && <T as FromRef<CgarF64>>::from_ref(&d).q() == *x, "from f64 {:?}", x);
            }
        }
        // to rational / lazy
        let r: CgarRational = a.ref_into();
        ensure!(r.q() == *x, "ref_into rational {:?} -> {:?}", x, r.q());
        let l: LazyExact = a.ref_into();
        ensure!(l.q() == *x, "ref_into lazy {:?} -> {:?}", x, l.q());
        let cr = CgarRational(x.0.clone());
        let lz = LazyExact::from(cr.clone());
        for y in [T::from(cr.clone()), T::from(x.0.clone()), T::from(lz.clone()), <T as FromRef<CgarRational>>::from_ref(&cr), <T as FromRef<LazyExact>>::from_ref(&lz)] {
            if T::EXACT { ensure!(y.q() == *x, "conversion from exact {:?} gave {:?}", x, y.q()); }
            else if x.to_f64().is_finite() { ensure!(near(y.ball_center_f64(), x), "conversion from exact {:?} gave {:e}", x, y.ball_center_f64()); }
        }
        if x.0.is_integer() && x.abs() < Q::f(1e15) {
            ensure!(a.to_i64() == Some(x.to_f64() as i64), "to_i64({:?})={:?}", x, a.to_i64());
            if x.sgn() >= 0 { ensure!(a.to_u64() == Some(x.to_f64() as u64), "to_u64({:?})={:?}", x, a.to_u64()); }
        }
    }
    // constants and small constructors
    let (n, d) = (c.s.int(-1000, 1000) as i32, 1 + c.s.below(1000) as i32);
    let e = Q::nd(n as i64, d as i64);
    let g = T::from_num_den(n, d);
    if T::EXACT { ensure!(g.q() == e, "from_num_den({},{})", n, d); } else { arith(g.ball_center_f64(), &e, "/")?; }
    ensure!(T::from(n).q() == Q::i(n as i64), "from i32 {}", n);
    ensure!(T::zero().q().is0() && T::one().q() == Q::i(1) && T::default().q().is0(), "zero/one/default");
    let _ = EPS;
    Ok(())
}
}

/// IEEE result of one double operation: correctly rounded
fn arith(got: f64, exact: &Q, n: &str) -> R {
    let e = exact.to_f64();
    if !e.is_finite() {
        return Ok(());
    }
    ensure!(near(got, exact) || (!got.is_finite() && e.abs() == f64::MAX), "f64 {} gave {:e}, exact {:?}", n, got, exact);
    Ok(())
}

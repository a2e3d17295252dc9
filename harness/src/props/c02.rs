//! Lazy-exact numbers against rational arithmetic.
use crate::case::{Case, R, Spec};
use crate::ensure;
use crate::props::numgen::*;
use crate::q::Q;
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::{FromRef, RefInto, Scalar};
use cgar::operations::{Abs, One, Zero};
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hasher, Hash};

pub const SPEC: Spec = Spec {
    id: "C02",
    rule: "the DAG has at least 3 operation nodes and at least one node whose rational value is zero or tiny relative to its operands (cancellation), so the floating filter cannot decide everything",
    quick: 1_000_000,
    thorough: 8_000_000,
    fresh_thread: false,
    run,
};

pub struct Nd {
    pub l: LazyExact,
    pub q: Q,
}

fn bits(q: &Q) -> u32 {
    q.0.numer().significant_bits() + q.0.denom().significant_bits()
}

fn h(l: &LazyExact) -> u64 {
    let b = ahash::RandomState::with_seeds(1, 2, 3, 4);
    let mut s = b.build_hasher();
    l.hash(&mut s);
    s.finish()
}

fn ord(q: &Q, r: &Q) -> Ordering {
    q.cmp(r)
}

fn query(c: &mut Case, n: &[Nd], i: usize, j: usize, kind: usize) -> R {
    c.checks += 1;
    ask(&n[i], &n[j], kind)
}

/// one of the queries, compared with the rational values
pub fn ask(a: &Nd, b: &Nd, kind: usize) -> R {
    match kind {
        0 => ensure!(a.l.sign() == a.q.sgn(), "sign of {:?} reported {}", a.q, a.l.sign()),
        1 => {
            let g = Q(a.l.exact().0);
            ensure!(g == a.q, "exact value of {:?} reported {:?}", a.q, g);
        }
        2 => {
            let g = a.l.partial_cmp(&b.l);
            ensure!(g == Some(ord(&a.q, &b.q)), "partial_cmp({:?},{:?}) = {:?}", a.q, b.q, g);
            ensure!((a.l < b.l) == (a.q < b.q) && (a.l >= b.l) == (a.q >= b.q), "< or >= wrong for {:?},{:?}", a.q, b.q);
        }
        3 => {
            let g = LazyExact::cmp_ref(&a.l, &b.l);
            ensure!(g == ord(&a.q, &b.q), "cmp_ref({:?},{:?}) = {:?}", a.q, b.q, g);
        }
        4 => {
            ensure!((a.l == b.l) == (a.q == b.q), "== wrong for {:?},{:?}", a.q, b.q);
            if a.q == b.q {
                ensure!(h(&a.l) == h(&b.l), "equal values hash differently: {:?}", a.q);
            }
        }
        5 => {
            if let Some(g) = a.l.cmp_fast(&b.l) {
                ensure!(g == ord(&a.q, &b.q), "cmp_fast({:?},{:?}) = {:?}", a.q, b.q, g);
            }
            ensure!(LazyExact::cmp_exact(&a.l, &b.l) as i32 == ord(&a.q, &b.q) as i32, "cmp_exact wrong for {:?},{:?}", a.q, b.q);
        }
        6 => {
            if let Some((lo, hi)) = a.l.double_interval() {
                let ok_lo = if lo.is_finite() { Q::f(lo) <= a.q } else { lo.is_nan() || lo < 0.0 };
                let ok_hi = if hi.is_finite() { Q::f(hi) >= a.q } else { hi.is_nan() || hi > 0.0 };
                ensure!(ok_lo && ok_hi, "interval [{:e},{:e}] misses value {:?} (~{:e})", lo, hi, a.q, a.q.to_f64());
            }
        }
        7 => {
            ensure!(a.l.is_zero() == a.q.is0() && Zero::is_zero(&a.l) == a.q.is0(), "is_zero wrong for {:?}", a.q);
            ensure!(a.l.is_positive() == (a.q.sgn() > 0), "is_positive wrong for {:?}", a.q);
            ensure!(a.l.is_negative() == (a.q.sgn() < 0), "is_negative wrong for {:?}", a.q);
            ensure!(a.l.is_positive_or_zero() == (a.q.sgn() >= 0), "is_positive_or_zero wrong for {:?}", a.q);
            ensure!(a.l.is_negative_or_zero() == (a.q.sgn() <= 0), "is_negative_or_zero wrong for {:?}", a.q);
            ensure!(a.l.cmp_zero() == a.q.cmp(&Q::zero()), "cmp_zero wrong for {:?}", a.q);
        }
        8 => {
            let m = Scalar::min(a.l.clone(), b.l.clone());
            let x = Scalar::max(a.l.clone(), b.l.clone());
            ensure!(Q(m.exact().0) == crate::q::qmin(&a.q, &b.q), "min wrong for {:?},{:?}", a.q, b.q);
            ensure!(Q(x.exact().0) == crate::q::qmax(&a.q, &b.q), "max wrong for {:?},{:?}", a.q, b.q);
        }
        9 => {
            let r: CgarRational = a.l.ref_into();
            ensure!(Q(r.0) == a.q, "conversion to rational wrong for {:?}", a.q);
            let r = CgarRational::from(a.l.clone());
            ensure!(Q(r.0) == a.q, "conversion to rational wrong for {:?}", a.q);
            let r = CgarRational::from_ref(&a.l);
            ensure!(Q(r.0) == a.q, "conversion to rational wrong for {:?}", a.q);
        }
        10 => {
            // pure cache-populating queries
            let _ = a.l.approx();
            let _ = a.l.ball_center_f64();
            let _ = a.l.as_f64_fast();
            let _ = format!("{:?}", a.l);
        }
        11 => {
            if let Some(x) = a.l.as_f64_if_exact() {
                ensure!(Q::f(x) == a.q, "as_f64_if_exact({:?}) = {:e}", a.q, x);
            }
            let g = LazyExact::approx_eq(&a.l, &b.l);
            if a.q == b.q {
                ensure!(g, "approx_eq false for equal {:?}", a.q);
            }
            a.l.force_exact();
            ensure!(a.l.has_exact(), "force_exact left no exact value");
        }
        _ => {
            // value reported as "fast" double, when given, is close to the true value
            if let Some(x) = a.l.as_f64_fast() {
                if x.is_finite() && a.q.to_f64().is_finite() {
                    let err = (Q::f(x) - &a.q).abs();
                    let bound = a.q.abs() * Q::f(1e-9) + Q::f(1e-300);
                    ensure!(err <= bound, "as_f64_fast({:?}) = {:e}", a.q, x);
                }
            }
        }
    }
    Ok(())
}

fn run(c: &mut Case) -> R {
    let wide = c.s.weighted(&[6, 2]) == 1; // extreme magnitudes allowed
    let nops = 2 + c.s.below(14);
    let mut n: Vec<Nd> = vec![];
    let mut ops = 0;
    let mut cancel = false;
    for step in 0..nops {
        let k = if n.len() < 2 { c.s.below(3) } else { c.s.weighted(&[12, 8, 4, 16, 20, 16, 12, 4, 4, 4, 4, 16, 1]) };
        match k {
            0 => {
                let x = gen_f64(c, wide);
                n.push(Nd {
                    l: match c.s.below(3) {
                        0 => LazyExact::from(x),
                        1 => LazyExact::from_cgar_f64(CgarF64(x)),
                        _ => LazyExact::from_ref(&CgarF64(x)),
                    },
                    q: Q::f(x),
                });
                c.note(|| format!("#{}=f64 {:e}", n.len() - 1, x));
            }
            1 => {
                let q = gen_q(c, wide);
                c.note(|| format!("#{}=rat {:?}", n.len(), q));
                n.push(Nd {
                    l: match c.s.below(3) {
                        0 => LazyExact::from(CgarRational(q.0.clone())),
                        1 => LazyExact::from(q.0.clone()),
                        _ => LazyExact::from_ref(&CgarRational(q.0.clone())),
                    },
                    q,
                });
            }
            2 => {
                let i = c.s.int(-4, 4) as i32;
                c.note(|| format!("#{}=int {}", n.len(), i));
                let l = match i {
                    0 if c.s.bool() => LazyExact::zero(),
                    1 if c.s.bool() => LazyExact::one(),
                    _ => LazyExact::from(i),
                };
                n.push(Nd { l, q: Q::i(i as i64) });
            }
            3 => {
                // leaf close to an existing value
                let i = c.s.below(n.len());
                let x = n[i].q.to_f64();
                let d = c.s.int(-3, 3);
                let y = if x.is_finite() && x != 0.0 { nudge(x, d) } else { 0.0 };
                let asq = c.s.chance(1, 3);
                let (l, q) = if asq { (LazyExact::from(CgarRational::from(y)), Q::f(y)) } else { (LazyExact::from(y), Q::f(y)) };
                c.note(|| format!("#{}=near #{} {:+} ulp: {:e}", n.len(), i, d, y));
                n.push(Nd { l, q });
            }
            11 => {
                let i = c.s.below(n.len());
                let j = c.s.below(n.len());
                let kind = c.s.below(13);
                c.note(|| format!("query{} #{} #{}", kind, i, j));
                query(c, &n, i, j, kind)?;
            }
            12 => {
                // a long chain of unevaluated operations
                let i = c.s.below(n.len());
                let j = c.s.below(n.len());
                let len = if c.s.chance(1, 15) { 1010 + c.s.below(25) } else { 1 + c.s.below(40) };
                let x = c.s.int(-40, 40) as f64 / 8.0;
                if bits(&n[i].q) + bits(&n[j].q) > 4000 {
                    continue;
                }
                let (leaf, lq) = (LazyExact::from(x), Q::f(x));
                let (mut l, mut q) = (n[i].l.clone(), n[i].q.clone());
                let how = c.s.draw(1 << 40);
                for t in 0..len {
                    match (how >> (2 * (t % 20))) & 3 {
                        0 => (l, q) = (&l + &leaf, &q + &lq),
                        1 => (l, q) = (&l - &leaf, &q - &lq),
                        2 => (l, q) = (&leaf - &l, &lq - &q),
                        _ => (l, q) = (&l + &n[j].l, &q + &n[j].q),
                    }
                }
                c.note(|| format!("#{}=chain of {len} from #{i} with {x} and #{j}", n.len()));
                if len > 1000 { c.label("deep"); }
                ops += 1;
                n.push(Nd { l, q });
            }
            _ => {
                let i = c.s.below(n.len());
                let j = c.s.below(n.len());
                let (a, b) = (&n[i], &n[j]);
                if bits(&a.q) + bits(&b.q) > 30000 {
                    continue;
                }
                let byref = c.s.bool();
                let (l, q, nm) = match k {
                    4 => (if byref { &a.l + &b.l } else { a.l.clone() + b.l.clone() }, &a.q + &b.q, "+"),
                    5 => (if byref { &a.l - &b.l } else { a.l.clone() - b.l.clone() }, &a.q - &b.q, "-"),
                    6 => (if byref { &a.l * &b.l } else { a.l.clone() * b.l.clone() }, &a.q * &b.q, "*"),
                    7 => {
                        if b.q.is0() {
                            continue;
                        }
                        (if byref { &a.l / &b.l } else { a.l.clone() / b.l.clone() }, &a.q / &b.q, "/")
                    }
                    8 => (if byref { -&a.l } else { -a.l.clone() }, -&a.q, "neg"),
                    9 => (a.l.abs(), a.q.abs(), "abs"),
                    _ => {
                        let mut l = a.l.clone();
                        if byref {
                            l += &b.l;
                            (l, &a.q + &b.q, "+=")
                        } else {
                            l -= &b.l;
                            (l, &a.q - &b.q, "-=")
                        }
                    }
                };
                ops += 1;
                let m = crate::q::qmax(&a.q.abs(), &b.q.abs());
                if (nm.starts_with('+') || nm.starts_with('-')) && !m.is0() && q.abs() < m * Q::f(1e-14) {
                    cancel = true;
                }
                c.note(|| format!("#{}=#{}{}#{}", n.len(), i, nm, j));
                n.push(Nd { l, q });
            }
        }
        let _ = step;
    }
    c.nontrivial = ops >= 3 && cancel;
    if wide {
        c.label("wide-magnitudes");
    }
    if cancel {
        c.label("cancellation");
    }
    // final audit, in a generated order of query kinds
    let rot = c.s.below(13);
    for i in 0..n.len() {
        for k in 0..13 {
            let kind = (k + rot) % 13;
            let j = (i + 1 + k) % n.len();
            query(c, &n, i, j, kind)?;
        }
    }
    Ok(())
}

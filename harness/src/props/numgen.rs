//! Number generators.
#![allow(dead_code)]
use crate::case::Case;
use crate::q::Q;

pub fn nudge(x: f64, k: i64) -> f64 {
    let mut y = x;
    for _ in 0..k.abs() {
        y = if k > 0 { y.next_up() } else { y.next_down() };
    }
    if y.is_finite() { y } else { x }
}

/// Finite double; simplest is 0.
pub fn gen_f64(c: &mut Case, wide: bool) -> f64 {
    match c.s.weighted(&[4, 3, 3, 2, if wide { 6 } else { 1 }, 1]) {
        0 => c.s.int(-20, 20) as f64,
        1 => c.s.int(-64, 64) as f64 / 16.0,
        2 => {
            // decimal-looking, not dyadic
            c.s.int(-1000, 1000) as f64 / 10.0
        }
        3 => {
            let m = c.s.draw(1 << 52);
            let e = c.s.int(-12, 12);
            let s = if c.s.bool() { -1.0 } else { 1.0 };
            s * (1.0 + m as f64 / (1u64 << 52) as f64) * (2.0f64).powi(e as i32)
        }
        4 => {
            let m = if c.s.bool() { 0 } else { c.s.draw(1 << 52) };
            let e = if wide { c.s.int(-1074, 1023) } else { c.s.int(-60, 60) };
            let s = if c.s.bool() { -1.0 } else { 1.0 };
            let v = s * (1.0 + m as f64 / (1u64 << 52) as f64) * (2.0f64).powi((e / 2) as i32) * (2.0f64).powi((e - e / 2) as i32);
            if v.is_finite() { v } else { f64::MAX }
        }
        _ => *c.s.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e-10, 1e-5, 1e-6, 1e20, 0.3333333333333333]),
    }
}

pub fn gen_q(c: &mut Case, wide: bool) -> Q {
    match c.s.weighted(&[4, 3, 2, 1]) {
        0 => Q::nd(c.s.int(-20, 20), 1 + c.s.below(12) as i64),
        1 => Q::f(gen_f64(c, wide)),
        2 => {
            let n = c.s.int(-1_000_000_000_000, 1_000_000_000_000);
            let d = 1 + c.s.draw(1_000_000_000_000) as i64;
            Q::nd(n, d)
        }
        _ => {
            // product of two, beyond double precision
            let a = Q::nd(c.s.int(-1_000_000_000_000_000, 1_000_000_000_000_000), 3);
            let b = Q::nd(1 + c.s.draw(1_000_000_000_000_000) as i64, 7);
            if wide && c.s.bool() {
                let mut r = &a * &b;
                let k = 1 + c.s.below(12);
                for _ in 0..k {
                    r = &r * &Q::f(1e300);
                }
                if c.s.bool() && !r.is0() { Q::i(1) / r } else { r }
            } else {
                &a * &b
            }
        }
    }
}

//! Enclosures: a centre and a radius computed alongside exact values always contain them.
use crate::case::*;
use crate::ensure;
use crate::q::*;
use cgar::numeric::ball::Ball;

pub const SPEC: Spec = Spec {
    id: "C29",
    rule: "at least three operations on enclosures with a finite radius, one of them inexact",
    quick: 1_500_000,
    thorough: 15_000_000,
    fresh_thread: false,
    run,
};

struct Nd {
    b: Ball,
    q: Q,
}

/// doubles of all magnitudes, with few or many bits
fn double(c: &mut Case) -> f64 {
    let m = match c.s.below(4) {
        0 => c.s.int(-9, 9) as f64,
        1 => c.s.int(-(1 << 40), 1 << 40) as f64,
        2 => (c.s.int(-(1 << 52), 1 << 52) * 2 + 1) as f64,
        _ => *c.s.pick(&[0.0, -0.0, 1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 0.1, -0.1, 1.0 / 3.0]),
    };
    let e = match c.s.weighted(&[5, 3, 2, 1]) {
        0 => 0,
        1 => c.s.int(-60, 60),
        2 => c.s.int(-300, 300),
        _ => c.s.int(-1060, 960),
    } as i32;
    let x = m * 2f64.powi(e / 2) * 2f64.powi(e - e / 2);
    if x.is_finite() { x } else { m }
}

fn holds(n: &Nd) -> Result<bool, String> {
    let Ball { m, r } = n.b;
    if let Some(s) = n.b.sign_if_certain() {
        ensure!(s == n.q.sgn(), "sign of {:?} taken for {s} from {m:e} +- {r:e}", n.q.to_f64());
    }
    if !m.is_finite() || !r.is_finite() {
        return Ok(false);
    }
    ensure!(r >= 0.0, "negative radius {r:e}");
    let d = (&n.q - &Q::f(m)).abs();
    ensure!(d <= Q::f(r), "{m:e} +- {r:e} misses the value by {:e}", d.to_f64());
    Ok(true)
}

fn run(c: &mut Case) -> R {
    let mut n: Vec<Nd> = vec![];
    for _ in 0..2 + c.s.below(3) {
        let x = double(c);
        n.push(if c.s.bool() {
            Nd { b: Ball::from_f64(x), q: Q::f(x) }
        } else {
            // something within one step of the double
            let up = f64::from_bits(x.to_bits() + 1);
            let t = Q::nd(c.s.int(-8, 8), 8);
            let q = &Q::f(x) + &(&(&Q::f(up) - &Q::f(x)) * &t);
            if up.is_finite() { Nd { b: Ball::from_f64_inexact(x), q } } else { Nd { b: Ball::from_f64(x), q: Q::f(x) } }
        });
    }
    for x in &n { holds(x)?; }
    let (mut finite, mut inexact) = (0, false);
    for _ in 0..1 + c.s.below(14) {
        let (i, j) = (c.s.below(n.len()), c.s.below(n.len()));
        let (a, b) = (&n[i], &n[j]);
        let k = c.s.weighted(&[4, 4, 4, 3, 1]);
        let x = match k {
            0 => Nd { b: a.b.add(b.b), q: &a.q + &b.q },
            1 => Nd { b: a.b.sub(b.b), q: &a.q - &b.q },
            2 => Nd { b: a.b.mul(b.b), q: &a.q * &b.q },
            3 if !b.q.is0() => Nd { b: a.b.div(b.b), q: &a.q / &b.q },
            _ => Nd { b: a.b.neg(), q: -&a.q },
        };
        c.note(|| format!("{i} {} {j}: {:e} +- {:e}", ["+", "-", "*", "/", "neg"][k], x.b.m, x.b.r));
        c.checks += 1;
        if holds(&x)? {
            finite += 1;
            if x.b.r > 0.0 { inexact = true; }
            // not so wide as to be useless
            if a.b.r == 0.0 && b.b.r == 0.0 && k < 3 && x.b.m.is_normal() {
                ensure!(x.b.r <= x.b.m.abs() * 1e-15, "the enclosure of one operation on exact doubles is {:e} +- {:e}", x.b.m, x.b.r);
            }
        } else {
            c.label("unknown");
        }
        // keep exact values small enough to be quick
        if x.q.0.numer().significant_bits() + x.q.0.denom().significant_bits() < 20_000 { n.push(x); }
    }
    c.label(["add-only", "mixed"][usize::from(inexact)]);
    c.nontrivial = finite >= 3 && inexact;
    Ok(())
}

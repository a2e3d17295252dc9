//! Point generators with a strong bias towards degenerate and nearly degenerate configurations.
#![allow(dead_code)]
use crate::case::Case;
use crate::q::*;

/// How coordinates are drawn; grids keep double arithmetic exact in the predicates.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    SmallInt,
    Eighths,
    Rational,
    Offset,
}

pub fn gen_style(c: &mut Case, exact: bool) -> Style {
    if exact {
        [Style::SmallInt, Style::Eighths, Style::Rational, Style::Offset][c.s.weighted(&[3, 2, 3, 2])]
    } else {
        [Style::SmallInt, Style::Eighths][c.s.weighted(&[2, 2])]
    }
}

pub fn gen_coord(c: &mut Case, s: Style) -> Q {
    match s {
        Style::SmallInt => Q::i(c.s.int(-4, 4)),
        Style::Eighths => Q::nd(c.s.int(-64, 64), 8),
        Style::Rational => Q::nd(c.s.int(-30, 30), 1 + c.s.below(11) as i64),
        Style::Offset => {
            // large common offset, tiny local structure: far below double resolution
            let base = Q::i(1_000_000_000);
            let k = c.s.int(-4, 4);
            base + Q::nd(k, 1_000_000_000_000)
        }
    }
}
pub fn gen_pn<const N: usize>(c: &mut Case, s: Style) -> [Q; N] {
    std::array::from_fn(|_| gen_coord(c, s))
}

/// affine parameter, dyadic unless exact
pub fn gen_t(c: &mut Case, exact: bool) -> Q {
    let k = c.s.below(if exact { 12 } else { 9 });
    match k {
        0 => Q::nd(1, 2),
        1 => Q::i(0),
        2 => Q::i(1),
        3 => Q::nd(1, 4),
        4 => Q::nd(3, 4),
        5 => Q::i(-1),
        6 => Q::i(2),
        7 => Q::nd(-1, 2),
        8 => Q::nd(3, 2),
        9 => Q::nd(1, 3),
        10 => Q::nd(c.s.int(-6, 12), 7),
        _ => Q::nd(c.s.int(-1, 1), 1_000_000_000_000_000) + Q::i(c.s.below(2) as i64),
    }
}

/// A point related to the earlier ones (equal to one, on a line, in a plane, slightly off), or fresh.
pub fn gen_rel<const N: usize>(c: &mut Case, s: Style, exact: bool, prev: &[[Q; N]]) -> [Q; N] {
    let n = prev.len();
    let k = if n == 0 { 0 } else { c.s.weighted(&[4, 1, if n >= 2 { 5 } else { 0 }, if n >= 3 { 4 } else { 0 }]) };
    let p = match k {
        0 => gen_pn(c, s),
        1 => prev[c.s.below(n)].clone(),
        2 => {
            let i = c.s.below(n);
            let j = c.s.below(n);
            let t = gen_t(c, exact);
            lerpn(&prev[i], &prev[j], &t)
        }
        _ => {
            let pm = c.s.perm(n);
            let t = gen_t(c, exact);
            let u = gen_t(c, exact);
            let m = lerpn(&prev[pm[0]], &prev[pm[1]], &t);
            lerpn(&m, &prev[pm[2]], &u)
        }
    };
    if exact && k >= 1 && c.s.chance(1, 4) {
        // nudge off the degenerate position by much less than a double can see
        let ax = c.s.below(N);
        let e = [1e-3, 1e-7, 1e-12, 1e-18, 1e-30][c.s.below(5)];
        let mut r = p.clone();
        r[ax] = if c.s.bool() { &r[ax] + &Q::f(e) } else { &r[ax] - &Q::f(e) };
        return r;
    }
    p
}
pub fn gen_rels<const N: usize>(c: &mut Case, exact: bool, n: usize) -> Vec<[Q; N]> {
    let s = gen_style(c, exact);
    let mut v: Vec<[Q; N]> = vec![];
    for _ in 0..n {
        let p = gen_rel(c, s, exact, &v);
        v.push(p);
    }
    v
}
/// for doubles: is the derived point still exactly representable with few bits (so predicates are exact)?
pub fn short<const N: usize>(p: &[Q; N]) -> bool {
    p.iter().all(|x| {
        let y = x * &Q::i(4096);
        *y.0.denom() == 1 && y.abs() < Q::i(4096 * 1024)
    })
}
pub fn all_short<const N: usize>(v: &[[Q; N]]) -> bool {
    v.iter().all(short)
}
pub fn show<const N: usize>(v: &[[Q; N]]) -> String {
    v.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" ")
}

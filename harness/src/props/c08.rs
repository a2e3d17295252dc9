//! Bounding-box tree queries against a plain list of boxes, over histories of edits.
use crate::case::{Case, R, Spec};
use crate::num::Num;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::geometry::aabb::Aabb;
use cgar::geometry::aabb_tree::AabbTree;
use cgar::geometry::point::Point;

pub const SPEC: Spec = Spec {
    id: "C08",
    rule: "some query returned a proper non-empty subset of the entries",
    quick: 120_000,
    thorough: 1_500_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    if c.s.bool() { by_num!(c, go2(c)) } else { by_num!(c, go3(c)) }
}

gfn! {
/// the same value, possibly as a derived expression whose double approximation cancels badly
pub fn dress(c: &mut Case, q: &Q) -> T {
    if !T::EXACT { return T::of(q); }
    match c.s.below(6) {
        0 | 1 | 2 => T::of(q),
        3 => {
            let b = Q::i([1_000_000, 1i64 << 53, 1i64 << 60][c.s.below(3)]);
            let x = T::of(&(q + &b));
            &x - &T::from(b.to_f64()) // a double leaf keeps the expression from being folded
        }
        4 => {
            let d = Q::f([3.0, 9.094947017729282e-13, 1.1e20][c.s.below(3)]);
            let x = T::of(&(q * &d));
            &x / &T::from(d.to_f64())
        }
        _ => {
            // divide by a difference that cancels
            let b = Q::i(1i64 << 60);
            let e = &T::of(&(&b + &Q::nd(1, 3))) - &T::from(b.to_f64());
            let x = &T::of(&(q * &Q::nd(1, 3))) / &e;
            x
        }
    }
}
}

fn coord(c: &mut Case, style: usize) -> Q {
    match style {
        0 => Q::i(c.s.int(-3, 3)),
        1 => Q::nd(c.s.int(-40, 40), 8),
        2 => Q::nd(c.s.int(-12, 12), 1 + c.s.below(7) as i64),
        3 => Q::i(1_000_000) + Q::nd(c.s.int(-3, 3), 1_000_000_000_000_000_000),
        _ => {
            let k = c.s.int(-3, 3);
            if k == 0 { Q::i(0) } else { Q::nd(k.signum(), 1) * Q::f(10f64.powi(c.s.int(-9, 9) as i32 * k.abs() as i32)) }
        }
    }
}

struct Entry<const N: usize> {
    lo: [Q; N],
    hi: [Q; N],
    data: usize,
    valid: bool,
}
fn touch<const N: usize>(a: (&[Q; N], &[Q; N]), b: (&[Q; N], &[Q; N]), tol: &Q) -> bool {
    (0..N).all(|i| &(a.1[i]) + tol >= b.0[i] && &(b.1[i]) + tol >= a.0[i])
}

fn gen_box<const N: usize>(c: &mut Case, style: usize, prev: &[Entry<N>]) -> ([Q; N], [Q; N]) {
    let mut lo: [Q; N] = std::array::from_fn(|_| coord(c, style));
    let mut hi: [Q; N] = std::array::from_fn(|_| coord(c, style));
    for i in 0..N {
        // touch an earlier box exactly on some axes
        if !prev.is_empty() && c.s.chance(1, 4) {
            let e = &prev[c.s.below(prev.len())];
            if c.s.bool() { lo[i] = e.hi[i].clone() } else { hi[i] = e.lo[i].clone() }
        }
        if c.s.chance(1, 8) {
            hi[i] = lo[i].clone();
        }
        if lo[i] > hi[i] {
            let (a, b) = (lo[i].clone(), hi[i].clone());
            lo[i] = b;
            hi[i] = a;
        }
    }
    (lo, hi)
}

macro_rules! body {
    ($name:ident, $n:literal) => {
        gfn! {
        fn $name(c: &mut Case) -> R {
            const N: usize = $n;
            c.label(if N == 2 { "2d" } else { "3d" });
            let style = if T::EXACT { c.s.below(5) } else { [0, 1, 4][c.s.below(3)] };
            let mk = |c: &mut Case, b: &([Q; N], [Q; N])| -> Aabb<T, N, Point<T, N>> {
                let lo = Point { coords: std::array::from_fn(|i| dress::<T>(c, &b.0[i])) };
                let hi = Point { coords: std::array::from_fn(|i| dress::<T>(c, &b.1[i])) };
                Aabb::new(lo, hi)
            };
            let snap = |b: ([Q; N], [Q; N])| -> ([Q; N], [Q; N]) {
                if T::EXACT { return b; }
                (std::array::from_fn(|i| Q::f(b.0[i].to_f64())), std::array::from_fn(|i| Q::f(b.1[i].to_f64())))
            };
            let n = match c.s.weighted(&[70, 10, 1]) { 0 => 1 + c.s.below(10), 1 => 20 + c.s.below(60), _ => 100 + c.s.below(300) };
            let distinct = c.s.bool();
            let mut list: Vec<Entry<N>> = vec![];
            let mut items = vec![];
            for i in 0..n {
                let b = snap(gen_box(c, style, &list));
                let data = if distinct { i } else { c.s.below(6) };
                items.push((mk(c, &b), data));
                list.push(Entry { lo: b.0, hi: b.1, data, valid: true });
            }
            let mut next = n;
            c.note(|| format!("{} boxes: {}", N, list.iter().map(|e| format!("{}:{}..{}", e.data, fmtv(&e.lo), fmtv(&e.hi))).collect::<Vec<_>>().join(" ")));
            let (mut tree, lookup) = AabbTree::build_with_lookup(items);
            ensure!(lookup.len() == n, "lookup has {} entries for {} boxes", lookup.len(), n);
            for i in 0..n {
                ensure!(crate::num::unpt(&lookup[i].min) == list[i].lo && crate::num::unpt(&lookup[i].max) == list[i].hi, "lookup entry {} differs", i);
            }
            let tol = if T::EXACT { Q::i(0) } else { Q::f(1.0000001e-10) };
            let steps = if c.s.chance(1, 10) { 10 + c.s.below(60) } else { 1 + c.s.below(10) };
            for _ in 0..steps {
                match c.s.weighted(&[5, 4, 3, 3, 1, 1]) {
                    k @ (0 | 1) => {
                        let b = snap(gen_box(c, style, &list));
                        let q = mk(c, &b);
                        let mut out: Vec<&usize> = vec![];
                        let only_valid = k == 1;
                        if only_valid { tree.query_valid(&q, &mut out) } else { tree.query(&q, &mut out) }
                        let mut got: Vec<usize> = out.into_iter().copied().collect();
                        got.sort();
                        let cand = |tol: &Q| {
                            let mut v: Vec<usize> = list.iter()
                                .filter(|e| (!only_valid || e.valid) && touch((&e.lo, &e.hi), (&b.0, &b.1), tol))
                                .map(|e| e.data).collect();
                            v.sort();
                            v
                        };
                        let must = cand(&Q::i(0));
                        let may = if T::EXACT { must.clone() } else { cand(&tol) };
                        c.checks += 1;
                        c.note(|| format!("{} {}..{} -> {:?}", if only_valid { "valid" } else { "query" }, fmtv(&b.0), fmtv(&b.1), got));
                        ensure!(sub(&must, &got), "query({}) {}..{} missed entries: got {:?}, the list has {:?}", only_valid, fmtv(&b.0), fmtv(&b.1), got, must);
                        ensure!(sub(&got, &may), "query({}) {}..{} reported too much: got {:?}, the list has {:?}", only_valid, fmtv(&b.0), fmtv(&b.1), got, may);
                        if !got.is_empty() && got.len() < list.len() { c.nontrivial = true; }
                    }
                    2 => {
                        let b = snap(gen_box(c, style, &list));
                        let data = if distinct { next += 1; next } else { c.s.below(6) };
                        let bx = mk(c, &b);
                        c.note(|| format!("insert {}:{}..{}", data, fmtv(&b.0), fmtv(&b.1)));
                        tree.insert(bx, data);
                        list.push(Entry { lo: b.0, hi: b.1, data, valid: true });
                        c.label("insert");
                    }
                    3 => {
                        let d = if c.s.chance(1, 8) { 1_000_000 } else { list[c.s.below(list.len())].data };
                        let exp = list.iter().filter(|e| e.valid && e.data == d).count();
                        c.note(|| format!("invalidate {}", d));
                        let got = tree.invalidate(&d);
                        ensure!(got == exp, "invalidate({}) reported {} entries, the list had {}", d, got, exp);
                        for e in list.iter_mut() { if e.data == d { e.valid = false } }
                        c.label("invalidate");
                    }
                    4 => {
                        c.note(|| "compact".into());
                        c.label("compact");
                        let live = list.iter().filter(|e| e.valid).count();
                        match tree.compact() {
                            None => ensure!(live == 0, "compact dropped {} valid entries", live),
                            Some(t) => {
                                ensure!(live > 0, "compact of an empty set returned a tree");
                                tree = t;
                                list.retain(|e| e.valid);
                            }
                        }
                    }
                    _ => {
                        let d = list[c.s.below(list.len())].data;
                        match tree.get_aabb(d) {
                            None => return Err(format!("no box found for data {}", d)),
                            Some(b) => {
                                let (lo, hi) = (crate::num::unpt(&b.min), crate::num::unpt(&b.max));
                                ensure!(list.iter().any(|e| e.data == d && e.lo == lo && e.hi == hi), "box for data {} is {}..{}", d, fmtv(&lo), fmtv(&hi));
                            }
                        }
                        ensure!(tree.get_aabb(5_000_000).is_none(), "a box was found for data that was never stored");
                    }
                }
                let live = list.iter().filter(|e| e.valid).count();
                ensure!(tree.needs_rebuild() == (2 * live < list.len()), "needs_rebuild is {} with {} of {} entries valid", tree.needs_rebuild(), live, list.len());
            }
            Ok(())
        }
        }
    };
}
body!(go2, 2);
body!(go3, 3);

/// multiset inclusion of sorted lists
fn sub(a: &[usize], b: &[usize]) -> bool {
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j == b.len() || b[j] != *x {
            return false;
        }
        j += 1;
    }
    true
}

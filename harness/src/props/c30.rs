//! Lazily evaluated numbers, and meshes made of them, used by several threads at once.
use super::c02::{ask, Nd};
use super::c08::dress;
use super::c15::{gen_query, locate};
use super::meshgen::*;
use super::numgen::*;
use crate::case::*;
use crate::ensure;
use crate::q::*;
use cgar::geometry::point::Point;
use cgar::mesh::basic_types::{Mesh, PointInMeshResult};
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use std::sync::Barrier;

pub const SPEC: Spec = Spec {
    id: "C30",
    rule: "at least two threads ask for the same values that nobody has evaluated before, one of them behind ten or more operations",
    quick: 100_000,
    thorough: 1_000_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    if c.s.chance(1, 12) { mesh(c) } else { numbers(c) }
}

/// Runs the jobs in threads that start together; the first complaint, in order of the jobs.
fn together<J: Fn() -> R + Sync>(jobs: &[J]) -> R {
    let gate = Barrier::new(jobs.len());
    std::thread::scope(|s| {
        let gate = &gate;
        let hs: Vec<_> = jobs.iter().map(|j| s.spawn(move || { gate.wait(); j() })).collect();
        let rs: Vec<R> = hs.into_iter().map(|h| match h.join() {
            Ok(r) => r,
            Err(p) => Err(format!("panic in a thread: {}", p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default())),
        }).collect();
        rs.into_iter().find(|r| r.is_err()).unwrap_or(Ok(()))
    })
}

fn leaf(c: &mut Case) -> Nd {
    if c.s.bool() {
        let x = gen_f64(c, false);
        Nd { l: LazyExact::from(x), q: Q::f(x) }
    } else {
        let q = gen_q(c, false);
        Nd { l: LazyExact::from(CgarRational(q.0.clone())), q }
    }
}

fn numbers(c: &mut Case) -> R {
    let mut n: Vec<Nd> = (0..2 + c.s.below(4)).map(|_| leaf(c)).collect();
    let mut deep = 0;
    for _ in 0..1 + c.s.below(5) {
        let (i, j) = (c.s.below(n.len()), c.s.below(n.len()));
        let (a, b) = (&n[i], &n[j]);
        let k = c.s.below(5);
        let x = match k {
            0 => Nd { l: &a.l + &b.l, q: &a.q + &b.q },
            1 => Nd { l: &a.l - &b.l, q: &a.q - &b.q },
            2 => Nd { l: &a.l * &b.l, q: &a.q * &b.q },
            3 if !b.q.is0() => Nd { l: &a.l / &b.l, q: &a.q / &b.q },
            _ => {
                // a value behind many operations takes a while to evaluate
                let len = 10 + c.s.below(200);
                let (mut l, mut q) = (a.l.clone(), a.q.clone());
                for t in 0..len {
                    (l, q) = if t % 2 == 0 { (&l + &b.l, &q + &b.q) } else { (&a.l - &l, &a.q - &q) };
                }
                deep += 1;
                Nd { l, q }
            }
        };
        c.note(|| format!("#{}=#{i} {} #{j}", n.len(), ["+", "-", "*", "/", "chain"][k]));
        n.push(x);
    }
    let threads = 2 + c.s.below(3);
    // every thread begins with the same questions, then goes its own way
    let q = |c: &mut Case| -> (usize, usize, usize) {
        let newest = c.s.bool();
        (if newest { n.len() - 1 } else { c.s.below(n.len()) }, c.s.below(n.len()), c.s.below(13))
    };
    let common: Vec<_> = (0..1 + c.s.below(3)).map(|_| q(c)).collect();
    let own: Vec<Vec<_>> = (0..threads).map(|_| (0..c.s.below(4)).map(|_| q(c)).collect()).collect();
    c.note(|| format!("{threads} threads ask {common:?} then {own:?}"));
    c.nontrivial = deep > 0;
    c.checks += (threads * common.len() + own.iter().map(|o| o.len()).sum::<usize>()) as u64;
    let jobs: Vec<_> = own.iter().map(|own| {
        let (n, common) = (&n, &common);
        move || -> R {
            for (i, j, k) in common.iter().chain(own) {
                ask(&n[*i], &n[*j], *k)?;
                // values made from shared ones
                let x = Nd { l: &n[*i].l - &n[*j].l, q: &n[*i].q - &n[*j].q };
                ask(&x, &n[*j], 0)?;
            }
            Ok(())
        }
    }).collect();
    together(&jobs)?;
    // and what the threads left behind
    for i in 0..n.len() {
        for k in [0, 1, 4, 6] { ask(&n[i], &n[(i + 1) % n.len()], k)?; }
    }
    Ok(())
}

fn mesh(c: &mut Case) -> R {
    c.label("mesh");
    let s = gen_closed(c, false, true);
    let mut m = Mesh::<LazyExact, 3>::new();
    for p in &s.p {
        m.add_vertex(Point { coords: std::array::from_fn(|k| dress::<LazyExact>(c, &p[k])) });
    }
    for t in &s.t { m.add_triangle(t[0], t[1], t[2]); }
    let tree = m.build_face_tree();
    let ps: Vec<[Q; 3]> = (0..1 + c.s.below(4)).map(|_| gen_query(c, &s)).collect();
    let qs: Vec<(Point<LazyExact, 3>, PointInMeshResult)> = ps.iter().map(|p| {
        let want = [PointInMeshResult::Outside, PointInMeshResult::Inside, PointInMeshResult::OnSurface][locate(p, &s.p, &s.t) as usize];
        (Point { coords: std::array::from_fn(|k| dress::<LazyExact>(c, &p[k])) }, want)
    }).collect();
    let threads = 2 + c.s.below(3);
    c.note(|| format!("{threads} threads, points {} in {}", ps.iter().map(|p| fmtv(p)).collect::<Vec<_>>().join(" "), s.show()));
    c.checks += (threads * qs.len()) as u64;
    let jobs: Vec<_> = (0..threads).map(|_| {
        let (m, tree, qs, ps) = (&m, &tree, &qs, &ps);
        move || -> R {
            for ((p, want), q) in qs.iter().zip(ps) {
                let got = m.point_in_mesh_3(tree, p);
                ensure!(got == *want, "point {} is {got:?}, expected {want:?}", fmtv(q));
            }
            Ok(())
        }
    }).collect();
    together(&jobs)
}

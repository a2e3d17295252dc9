//! Edge flips: only the diagonal changes, refusals change nothing, flipping back restores.
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::scalar::Scalar;
use std::collections::BTreeMap;

pub const SPEC: Spec = Spec {
    id: "C11",
    rule: "at least two flips performed on the same mesh",
    quick: 200_000,
    thorough: 2_000_000,
    fresh_thread: false,
    run,
};

type Snap = (Vec<(usize, Option<usize>, usize, usize, usize, bool)>, Vec<(usize, bool)>, Vec<(Option<usize>, bool)>, BTreeMap<(usize, usize), usize>);
/// everything observable about the structure
pub fn snapshot<T: Scalar, const N: usize>(m: &Mesh<T, N>) -> Snap {
    (
        m.half_edges.iter().map(|h| (h.vertex, h.face, h.twin, h.next, h.prev, h.removed)).collect(),
        m.faces.iter().map(|f| (f.half_edge, f.removed)).collect(),
        m.vertices.iter().map(|v| (v.half_edge, v.removed)).collect(),
        m.edge_map.iter().map(|(k, v)| (*k, *v)).collect(),
    )
}

macro_rules! history {
    ($name:ident, $N:expr) => {
        gfn! {
            fn $name(c: &mut Case, s: &Soup<$N>) -> R {
                let mut m = build_mesh!(T, $N, s);
                let mut cur: Vec<[usize; 3]> = s.t.clone();
                let most = if c.s.chance(1, 12) { 50 } else { 12 };
                let steps = 2 + c.s.below(most);
                let mut done = 0;
                for step in 0..steps {
                    let uses = edge_uses(&cur).ok_or("model lost manifoldness")?;
                    let i = c.s.below(cur.len());
                    let (a, b) = dir_edges(cur[i])[c.s.below(3)];
                    // sometimes hand in the border side of a border edge
                    let (a, b) = if c.s.chance(1, 4) { (b, a) } else { (a, b) };
                    let he = m.half_edge_between(a, b).ok_or_else(|| format!("edge ({a},{b}) not found"))?;
                    let opp = |x: usize, y: usize| uses.get(&(x, y)).map(|k| cur[*k].into_iter().find(|v| *v != x && *v != y).unwrap());
                    let (oc, od) = (opp(a, b), opp(b, a));
                    let want: Result<(usize, usize), &str> = match (oc, od) {
                        (Some(x), Some(d)) => {
                            if x == d {
                                Err("same apex")
                            } else if uses.contains_key(&(x, d)) || uses.contains_key(&(d, x)) {
                                Err("duplicate edge")
                            } else if $N == 3 && (collinear(&s.p[a], &s.p[d], &s.p[x]) || collinear(&s.p[b], &s.p[x], &s.p[d])) {
                                Err("degenerate triangle")
                            } else {
                                Ok((x, d))
                            }
                        }
                        _ => Err("border"),
                    };
                    let before = snapshot(&m);
                    let got = m.flip_edge(he);
                    c.note(|| format!("flip({a},{b}) -> {got:?}"));
                    match want {
                        Err(why) => {
                            ensure!(got.is_err(), "step {step}: flip of ({a},{b}) accepted although it must be refused: {why}");
                            ensure!(snapshot(&m) == before, "step {step}: refused flip of ({a},{b}) modified the mesh");
                            c.label(match why { "border" => "border", "duplicate edge" => "duplicate", _ => "degenerate" });
                        }
                        Ok((x, d)) => {
                            ensure!(got.is_ok(), "step {step}: flip of ({a},{b}) to ({x},{d}) refused: {got:?}");
                            let (f0, f1) = (uses[&(a, b)], uses[&(b, a)]);
                            let mut next: Vec<[usize; 3]> = cur.iter().enumerate().filter(|(k, _)| *k != f0 && *k != f1).map(|(_, t)| *t).collect();
                            next.push([a, d, x]);
                            next.push([b, x, d]);
                            let ts = audit(&m, Borders::Linked).map_err(|e| format!("step {step}: {e}"))?;
                            expect_tris(&ts, &next).map_err(|e| format!("step {step}: {e}"))?;
                            if c.s.chance(1, 4) {
                                // back again
                                let h2 = m.half_edge_between(x, d).ok_or("new diagonal not found")?;
                                let flat = $N == 3 && (collinear(&s.p[a], &s.p[b], &s.p[x]) || collinear(&s.p[a], &s.p[b], &s.p[d]));
                                if !flat {
                                    ensure!(m.flip_edge(h2).is_ok(), "step {step}: flipping ({x},{d}) back refused");
                                    let ts = audit(&m, Borders::Linked).map_err(|e| format!("step {step} back: {e}"))?;
                                    expect_tris(&ts, &cur).map_err(|e| format!("step {step} back: {e}"))?;
                                    next = cur.clone();
                                    c.label("flip-back");
                                }
                            }
                            cur = next;
                            done += 1;
                            c.label("flipped");
                        }
                    }
                    c.checks += 1;
                }
                for (i, p) in s.p.iter().enumerate() {
                    ensure!(unpt(&m.vertices[i].position) == *p, "vertex {i} moved");
                }
                ensure!(m.flip_edge(m.half_edges.len()).is_err(), "half-edge out of range accepted");
                c.nontrivial = done >= 2;
                Ok(())
            }
        }
    };
}
history!(h2, 2);
history!(h3, 3);

fn run(c: &mut Case) -> R {
    if c.s.chance(2, 5) {
        let s = gen_planar(c, false);
        c.note(|| s.show());
        by_num!(c, h2(c, &s))
    } else {
        let s = gen_surface(c, true, false);
        c.note(|| s.show());
        by_num!(c, h3(c, &s))
    }
}

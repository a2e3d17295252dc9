//! Edge collapse: rejected without a trace, or one vertex and its edge's triangles disappear cleanly.
use super::c11::snapshot;
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::mesh::edge_collapse::{CollapseOpts, Midpoint};
use std::collections::BTreeSet;

pub const SPEC: Spec = Spec {
    id: "C12",
    rule: "at least one collapse performed and at least two attempted",
    quick: 100_000,
    thorough: 1_500_000,
    fresh_thread: false,
    run,
};

fn collapse(ts: &[[usize; 3]], keep: usize, gone: usize) -> Vec<[usize; 3]> {
    ts.iter().filter(|t| !(t.contains(&keep) && t.contains(&gone))).map(|t| t.map(|v| if v == gone { keep } else { v })).collect()
}
fn area2(p: &[[Q; 3]; 3]) -> ([Q; 3], Q) {
    let n = cross3(&subn(&p[1], &p[0]), &subn(&p[2], &p[0]));
    let d = dotn(&n, &n);
    (n, d)
}

gfn! {
    fn hist(c: &mut Case, s: &Soup<3>) -> R {
        let mut m = build_mesh!(T, 3, s);
        let mut cur = s.t.clone();
        let mut ps = s.p.clone();
        let most = if c.s.chance(1, 12) { 30 } else { 8 };
        let steps = 2 + c.s.below(most);
        let (mut done, mut tried) = (0, 0);
        for step in 0..steps {
            if cur.is_empty() {
                break;
            }
            let i = c.s.below(cur.len());
            let (mut a, mut b) = dir_edges(cur[i])[c.s.below(3)];
            if c.s.bool() {
                std::mem::swap(&mut a, &mut b);
            }
            let far = c.s.chance(1, 12);
            if far {
                let vs: Vec<usize> = cur.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
                b = vs[c.s.below(vs.len())];
                if b == a {
                    continue;
                }
            }
            let uses = edge_uses(&cur).ok_or("model lost manifoldness")?;
            let adjacent = uses.contains_key(&(a, b)) || uses.contains_key(&(b, a));
            let mid = lerpn(&ps[a], &ps[b], &Q::nd(1, 2));
            // link condition: shared neighbours are exactly the apexes of the edge's triangles,
            // and an interior edge may not join two border vertices
            let opp: BTreeSet<usize> = cur.iter().filter(|t| t.contains(&a) && t.contains(&b)).flatten().copied().filter(|v| *v != a && *v != b).collect();
            let (na, nb) = (neighbours(&cur, a), neighbours(&cur, b));
            let shared: BTreeSet<usize> = na.intersection(&nb).copied().collect();
            let on_border = |v: usize| neighbours(&cur, v).iter().any(|w| uses.contains_key(&(v, *w)) != uses.contains_key(&(*w, v)));
            let border_edge = uses.contains_key(&(a, b)) != uses.contains_key(&(b, a));
            // a piece made of nothing but the edge's own triangles disappears as a whole
            let vanishes = !cur.iter().any(|t| t.contains(&a) != t.contains(&b));
            let pinch = !border_edge && on_border(a) && on_border(b) && !vanishes;
            let link = adjacent && shared == opp && !pinch;
            let after = collapse(&cur, a, b);
            let manifold = edge_uses(&after).is_some() && vertex_manifold(&after);
            // leftovers that are not surfaces any more: nothing left, or a flattened shell
            let shell = {
                let mut set: BTreeSet<[usize; 3]> = BTreeSet::new();
                after.iter().any(|t| {
                    let mut k = *t;
                    k.sort();
                    !set.insert(k)
                })
            };
            let mut degenerate = false;
            let mut turned = false;
            for t in cur.iter().filter(|t| (t.contains(&a) || t.contains(&b)) && !(t.contains(&a) && t.contains(&b))) {
                let old = [ps[t[0]].clone(), ps[t[1]].clone(), ps[t[2]].clone()];
                let new = t.map(|v| if v == a || v == b { mid.clone() } else { ps[v].clone() });
                let (n0, _) = area2(&old);
                let (n1, d1) = area2(&new);
                degenerate |= d1.is0();
                turned |= dotn(&n0, &n1).sgn() < 0;
            }
            let before = snapshot(&m);
            let opts = CollapseOpts::<T> { area_eps2: CollapseOpts::<T>::default().area_eps2, forbid_border: c.s.chance(1, 5), forbid_normal_flip: c.s.chance(3, 4) };
            let plain = c.s.bool();
            let (fb, fnf) = if plain { (false, true) } else { (opts.forbid_border, opts.forbid_normal_flip) };
            // the begin phase must not touch anything either
            let got: Result<(), String> = if plain {
                m.collapse_edge(a, b).map_err(|e| format!("{e:?}"))
            } else {
                let plan = if c.s.bool() || !adjacent {
                    m.collapse_edge_begin_vertices(a, b, &Midpoint, &opts)
                } else {
                    m.collapse_edge_begin_he(m.half_edge_between(a, b).unwrap(), &Midpoint, &opts)
                };
                match plan {
                    Err(e) => Err(format!("{e:?}")),
                    Ok(p) => {
                        ensure!(p.v_keep == a && p.v_gone == b, "plan keeps {} and removes {}", p.v_keep, p.v_gone);
                        ensure!(snapshot(&m) == before, "planning a collapse modified the mesh");
                        m.collapse_edge_commit(p).map_err(|e| format!("commit: {e:?}"))
                    }
                }
            };
            tried += 1;
            c.note(|| format!("collapse({a}<-{b}) -> {got:?}"));
            match &got {
                Err(e) => {
                    ensure!(snapshot(&m) == before, "step {step}: rejected collapse ({a},{b}) modified the mesh ({e})");
                    let ok = link && manifold && !shell && !degenerate && !(turned && fnf) && !(fb && border_edge);
                    ensure!(!ok, "step {step}: collapse ({a},{b}) satisfies every condition but was rejected: {e}");
                    c.label("rejected");
                }
                Ok(()) => {
                    ensure!(adjacent, "step {step}: collapsed vertices {a},{b} that share no edge");
                    ensure!(link, "step {step}: collapse ({a},{b}) violates the link condition (shared {shared:?}, apexes {opp:?}, joins borders {pinch})");
                    ensure!(!(fb && border_edge), "step {step}: border edge ({a},{b}) collapsed although forbidden");
                    ensure!(!degenerate, "step {step}: collapse ({a},{b}) leaves a triangle without area");
                    ensure!(!(turned && fnf), "step {step}: collapse ({a},{b}) turns a triangle over although forbidden");
                    let ts = audit(&m, Borders::Linked).map_err(|e| format!("step {step} collapse({a}<-{b}): {e}"))?;
                    expect_tris(&ts, &after).map_err(|e| format!("step {step} collapse({a}<-{b}): {e}"))?;
                    ensure!(m.vertices[b].removed, "vertex {b} not marked removed");
                    ensure!(!m.vertices[a].removed, "kept vertex {a} marked removed");
                    let p = unpt(&m.vertices[a].position);
                    ensure!(p == mid, "kept vertex at {}, midpoint is {}", fmtv(&p), fmtv(&mid));
                    let gone = vanishes as usize;
                    ensure!(euler(&ts) + gone as i64 == euler(&cur), "Euler characteristic changed from {} to {}", euler(&cur), euler(&ts));
                    ensure!(components(&ts) + gone == components(&cur), "number of components changed");
                    ps[a] = mid;
                    cur = after;
                    done += 1;
                    if vanishes {
                        c.label("piece-vanished");
                    }
                    c.label(if border_edge { "border-collapse" } else { "collapse" });
                    if shell {
                        c.label("flattened");
                        break;
                    }
                }
            }
            for (i, p) in ps.iter().enumerate() {
                ensure!(m.vertices[i].removed || unpt(&m.vertices[i].position) == *p, "vertex {i} moved");
            }
            if !T::EXACT && ps.iter().any(|p| !super::geogen::short(p)) {
                break;
            }
        }
        c.nontrivial = done >= 1 && tried >= 2;
        Ok(())
    }
}
fn run(c: &mut Case) -> R {
    let s = gen_surface(c, true, false);
    c.note(|| s.show());
    by_num!(c, hist(c, &s))
}

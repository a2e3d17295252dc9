//! Structural validation: accepts sound meshes, rejects damaged ones, and ends.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{mpsc, Arc};
use std::time::Duration;
use super::meshgen::*;
use crate::case::*;
use crate::{build_mesh, ensure};
use cgar::mesh::basic_types::Mesh;
use cgar::numeric::cgar_f64::CgarF64;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

type M3 = Mesh<CgarF64, 3>;

pub const SPEC: Spec = Spec {
    id: "C27",
    rule: "a mesh of at least four faces was damaged so that a structural rule is broken",
    quick: 300_000,
    thorough: 3_000_000,
    fresh_thread: false,
    run,
};

/// Two half-edges run between the same vertices in the same direction.
fn doubled(m: &M3) -> bool {
    let mut seen = BTreeSet::new();
    m.half_edges.iter().filter(|h| !h.removed).any(|h| !seen.insert((m.half_edges[h.prev].vertex, h.vertex)))
}

/// The verdict on a damaged mesh, from a thread of its own: it takes microseconds, and a minute without
/// one means that there will be none.
fn accepts(m: &Arc<M3>) -> Result<bool, String> {
    static HUNG: AtomicBool = AtomicBool::new(false);
    let wait = if HUNG.load(Relaxed) { 5 } else { 60 };
    let (tx, rx) = mpsc::channel();
    let n = m.clone();
    std::thread::spawn(move || {
        let _ = tx.send(catch_unwind(AssertUnwindSafe(|| n.validate_connectivity())).is_ok());
    });
    rx.recv_timeout(Duration::from_secs(wait)).map_err(|_| {
        HUNG.store(true, Relaxed);
        "the validation of a damaged mesh does not end".to_string()
    })
}

/// The rules, from the raw fields; the first broken one.
fn broken(m: &M3) -> Option<&'static str> {
    let n = m.half_edges.len();
    let live = || m.half_edges.iter().enumerate().filter(|(_, h)| !h.removed);
    for (i, h) in live() {
        if h.next >= n || m.half_edges[h.next].prev != i { return Some("next") }
        if h.prev >= n || m.half_edges[h.prev].next != i { return Some("prev") }
        if h.twin >= n || m.half_edges[h.twin].twin != i { return Some("twin") }
    }
    let cycle = |f: usize| -> Option<BTreeSet<usize>> {
        let mut seen = BTreeSet::new();
        let mut h = m.faces[f].half_edge;
        while seen.insert(h) {
            h = m.half_edges.get(h)?.next;
        }
        (h == m.faces[f].half_edge).then_some(seen)
    };
    let cycles: Vec<Option<BTreeSet<usize>>> = (0..m.faces.len()).map(|f| if m.faces[f].removed { Some(BTreeSet::new()) } else { cycle(f) }).collect();
    for (i, h) in live() {
        if let Some(f) = h.face {
            if f >= m.faces.len() || !cycles[f].as_ref().is_some_and(|c| c.contains(&i)) { return Some("not in its face") }
        }
    }
    for f in 0..m.faces.len() {
        if m.faces[f].removed { continue }
        match &cycles[f] {
            Some(c) if c.iter().all(|h| m.half_edges[*h].face == Some(f)) => {}
            _ => return Some("face"),
        }
    }
    for (v, x) in m.vertices.iter().enumerate() {
        if x.removed { continue }
        if let Some(h) = x.half_edge {
            if h >= n || m.half_edges[h].prev >= n || m.half_edges[m.half_edges[h].prev].vertex != v { return Some("vertex") }
        }
    }
    if doubled(m) { return Some("doubled") }
    None
}

fn run(c: &mut Case) -> R {
    let big = c.s.chance(1, 4);
    let mut s = gen_surface(c, big, false);
    s.shuffle(c);
    let mut m: M3 = build_mesh!(CgarF64, 3, &s);
    if c.s.chance(1, 3) {
        // leave something removed behind
        for _ in 0..1 + c.s.below(3) {
            let fs = live_faces(&m);
            if fs.len() < 3 { break }
            let f = *c.s.pick(&fs);
            if c.s.bool() {
                m.remove_triangle(f);
            } else {
                let t = face_tri(&m, f)?;
                let p: [f64; 3] = std::array::from_fn(|k| t.iter().map(|v| m.vertices[*v].position[k].0).sum::<f64>() / 3.0);
                let mut tree = m.build_face_tree();
                let _ = m.split_face(&mut tree, f, &cgar::geometry::point::Point { coords: p.map(CgarF64) }, true);
            }
        }
        c.label("edited");
    }
    audit(&m, Borders::Linked)?;
    let faces = live_faces(&m);
    ensure!(broken(&m).is_none(), "the mesh is not sound to begin with: {:?}", broken(&m));
    m.validate_connectivity();
    m.validate_half_edges();

    let live: Vec<usize> = (0..m.half_edges.len()).filter(|h| !m.half_edges[*h].removed).collect();
    let verts: Vec<usize> = (0..m.vertices.len()).filter(|v| !m.vertices[*v].removed && m.vertices[*v].half_edge.is_some()).collect();
    if faces.len() < 2 { return Ok(()) }
    for _ in 0..if c.s.chance(1, 5) { 2 } else { 1 } {
        let (h, g) = (*c.s.pick(&live), if c.s.chance(1, 12) { usize::MAX } else { *c.s.pick(&live) });
        let f = *c.s.pick(&faces);
        match c.s.below(9) {
            0 => m.half_edges[h].next = g,
            1 => m.half_edges[h].prev = g,
            2 => m.half_edges[h].twin = g,
            3 => m.half_edges[h].face = if c.s.chance(1, 4) { None } else { Some(f) },
            4 => m.faces[f].half_edge = g,
            5 => { let v = *c.s.pick(&verts); m.vertices[v].half_edge = Some(g) }
            6 => m.half_edges[h].vertex = *c.s.pick(&verts),
            7 => {
                // cross two cycles over, both ways consistently
                let g = *c.s.pick(&live);
                let (a, b) = (m.half_edges[h].next, m.half_edges[g].next);
                if a < m.half_edges.len() && b < m.half_edges.len() {
                    m.half_edges[h].next = b;
                    m.half_edges[b].prev = h;
                    m.half_edges[g].next = a;
                    m.half_edges[a].prev = g;
                }
            }
            _ => {
                // exchange twins consistently
                let g = *c.s.pick(&live);
                let (a, b) = (m.half_edges[h].twin, m.half_edges[g].twin);
                if a < m.half_edges.len() && b < m.half_edges.len() {
                    m.half_edges[h].twin = b;
                    m.half_edges[b].twin = h;
                    m.half_edges[g].twin = a;
                    m.half_edges[a].twin = g;
                }
            }
        }
        c.note(|| format!("damage at half-edge {h}, face {f} (with {g})"));
    }
    let why = broken(&m);
    c.label(why.unwrap_or("still sound"));
    c.note(|| format!("{} faces, {}", faces.len(), why.unwrap_or("sound")));
    if why.is_some() && faces.len() >= 4 { c.nontrivial = true; }
    let m = Arc::new(m);
    let ok = if why.is_some() { accepts(&m)? } else { catch_unwind(AssertUnwindSafe(|| m.validate_connectivity())).is_ok() };
    ensure!(ok || why.is_some(), "a sound mesh is rejected");
    ensure!(!ok || why.is_none(), "a damaged mesh is accepted: {}", why.unwrap());
    if m.half_edges.iter().all(|h| h.removed || h.prev < m.half_edges.len()) {
        let d = doubled(&m);
        let ok = catch_unwind(AssertUnwindSafe(|| m.validate_half_edges())).is_ok();
        ensure!(ok != d, "half-edge check {} a mesh {} doubled edges", if ok { "accepts" } else { "rejects" }, if d { "with" } else { "without" });
    }
    Ok(())
}

//! Files: what is written is what is read back, for every format and number type.
use super::meshgen::*;
use super::numgen::gen_f64;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::io::{obj, off, stl};
use std::path::PathBuf;

pub const SPEC: Spec = Spec {
    id: "C18",
    rule: "the written mesh has at least two live triangles",
    quick: 250_000,
    thorough: 1_200_000,
    fresh_thread: false,
    run,
};

/// A file of this thread's own inside the run's scratch directory.
pub fn scratch(ext: &str) -> PathBuf {
    thread_local!(static ID: u64 = { static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) });
    let d = crate::scratch_dir();
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("t{}.{ext}", ID.with(|x| *x)))
}

fn near(got: &Q, want: &Q, exact: bool) -> bool {
    if exact {
        return got == want;
    }
    (got - want).abs() <= want.abs() * Q::f(1e-15) + Q::f(f64::MIN_POSITIVE)
}
fn nearv(got: &[Q; 3], want: &[Q; 3], exact: bool) -> bool {
    (0..3).all(|i| near(&got[i], &want[i], exact))
}

gfn! {
    fn go(c: &mut Case) -> R {
        let rational = T::EXACT && c.s.bool();
        let mut s = gen_surface(c, true, rational);
        // long files
        if c.s.chance(1, 400) {
            let (w, h) = (2 + c.s.below(40), 2 + c.s.below(40));
            c.label("long");
            s.p = (0..w * h).map(|i| [Q::i((i % w) as i64), Q::i((i / w) as i64), Q::nd((i * i % 17) as i64, 8)]).collect();
            s.t = (0..(w - 1) * (h - 1)).flat_map(|i| {
                let v = i % (w - 1) + i / (w - 1) * w;
                [[v, v + 1, v + w], [v + 1, v + w + 1, v + w]]
            }).collect();
        }
        // files carry any finite coordinates, whatever shape they make
        let shape = c.s.below(4);
        match shape {
            0 => { for p in s.p.iter_mut() { *p = std::array::from_fn(|_| Q::f(gen_f64(c, true))); } c.label("wide-coordinates"); }
            1 => { for p in s.p.iter_mut() { *p = std::array::from_fn(|_| Q::f(gen_f64(c, false))); } }
            _ => {}
        }
        // unused vertices anywhere
        if c.s.chance(1, 4) {
            let k = c.s.below(s.p.len() + 1);
            s.p.insert(k, [Q::i(7), Q::i(-7), Q::nd(1, 4)]);
            for t in s.t.iter_mut() { for v in t.iter_mut() { if *v >= k { *v += 1; } } }
            c.label("unused-vertex");
        }
        c.note(|| format!("{} {}", T::NAME, s.show()));
        let mut m = build_mesh!(T, 3, &s);
        let mut live = s.t.clone();
        let mut edits = 0;
        if shape >= 2 && c.s.chance(1, 3) {
            // leaves dead vertices behind
            for _ in 0..1 + c.s.below(2) {
                let fs = live_faces(&m);
                if fs.is_empty() { break; }
                let t = face_tri(&m, fs[c.s.below(fs.len())])?;
                if m.collapse_edge(t[0], t[1]).is_ok() { c.label("collapsed"); }
                c.note(|| format!("collapse {} {}", t[0], t[1]));
            }
            live = tris(&m)?;
        }
        if c.s.bool() {
            let n = 1 + c.s.below(3);
            for _ in 0..n {
                let fs = live_faces(&m);
                if fs.len() < 2 { break; }
                let f = fs[c.s.below(fs.len())];
                if c.s.bool() {
                    m.remove_triangle(f);
                    c.note(|| format!("remove face {f}"));
                } else {
                    let t = face_tri(&m, f)?;
                    let w = m.add_vertex(m.vertices[t[0]].position.clone());
                    m.remove_triangle(f);
                    for (a, b) in dir_edges(t) { m.add_triangle(a, b, w); }
                    c.note(|| format!("refill face {f}"));
                }
                edits += 1;
            }
            live = tris(&m)?;
            c.label("edited");
        }
        c.nontrivial = live.len() >= 2;
        let _ = edits;
        let mut pos: Vec<[Q; 3]> = m.vertices.iter().map(|v| unpt(&v.position)).collect();
        ensure!(live.iter().flatten().all(|v| !m.vertices[*v].removed), "a live triangle uses a removed vertex");
        let exact = pos.iter().flatten().all(|x| x.is_dyadic_f64());
        let fmt = c.s.below(3);
        let ext = ["obj", "off", "stl"][fmt];
        c.label(ext);
        let path = scratch(ext);
        match fmt { 0 => obj::write_obj(&m, &path), 1 => off::write_off(&m, &path), _ => stl::write_stl(&m, &path) }.map_err(|e| format!("writing {ext}: {e}"))?;
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        let back = match fmt { 0 => obj::read_obj::<T, _>(&path), 1 => off::read_off::<T, _>(&path), _ => stl::read_stl::<T, _>(&path) }.map_err(|e| format!("reading back {ext}: {e}"))?;
        c.note(|| text.clone());
        // any other program must be able to read it too
        let (fp, ft) = parse(fmt, &text).map_err(|e| format!("{ext}: not a well-formed file: {e}"))?;
        let dead = m.vertices.iter().filter(|v| v.removed).count();
        if fmt < 2 && dead > 0 && fp.len() + dead == pos.len() {
            // dead vertices left out, and the others numbered without them
            let mut to = vec![usize::MAX; pos.len()];
            let kept: Vec<usize> = (0..pos.len()).filter(|v| !m.vertices[*v].removed).collect();
            for (new, old) in kept.iter().enumerate() { to[*old] = new; }
            pos = kept.iter().map(|v| pos[*v].clone()).collect();
            for t in live.iter_mut() { *t = t.map(|v| to[v]); }
        }
        ensure!(ft.len() == live.len() && (fmt == 2 || fp.len() == pos.len()), "{ext}: the file has {} vertices and {} triangles, the mesh {} and {}", fp.len(), ft.len(), pos.len(), live.len());
        for (i, (g, w)) in ft.iter().zip(&live).enumerate() {
            if fmt < 2 { ensure!(rot(*g) == rot(*w), "{ext}: triangle {i} {w:?} was written as {g:?}"); }
            let ok = (0..3).any(|r| (0..3).all(|k| nearv(&fp[g[k]], &pos[w[(k + r) % 3]], exact)));
            ensure!(ok, "{ext}: triangle {i} is {} in the mesh and {} in the file", w.map(|v| fmtv(&pos[v])).join(" "), g.map(|v| fmtv(&fp[v])).join(" "));
        }
        let got = audit(&back, Borders::Loose).map_err(|e| format!("{ext} read back: {e}"))?;
        ensure!(got.len() == live.len(), "{ext}: {} triangles written, {} read back", live.len(), got.len());
        let gpos: Vec<[Q; 3]> = back.vertices.iter().map(|v| unpt(&v.position)).collect();
        if fmt < 2 {
            ensure!(gpos.len() == pos.len(), "{ext}: {} vertices written, {} read back", pos.len(), gpos.len());
            for (i, (g, w)) in gpos.iter().zip(&pos).enumerate() {
                ensure!(nearv(g, w, exact), "{ext}: vertex {i} was {} and is {} after reading", fmtv(w), fmtv(g));
            }
            for (i, (g, w)) in got.iter().zip(&live).enumerate() {
                ensure!(rot(*g) == rot(*w), "{ext}: triangle {i} was {w:?} and is {g:?} after reading");
            }
        } else {
            for (i, (g, w)) in got.iter().zip(&live).enumerate() {
                let ok = (0..3).any(|r| (0..3).all(|k| nearv(&gpos[g[k]], &pos[w[(k + r) % 3]], exact)));
                ensure!(ok, "stl: triangle {i} was {} and is {} after reading", w.map(|v| fmtv(&pos[v])).join(" "), g.map(|v| fmtv(&gpos[v])).join(" "));
            }
            // the normals in the file point to the side the triangle faces
            let mut it = live.iter();
            for l in text.lines().filter(|l| l.trim_start().starts_with("facet normal")) {
                let Some(t) = it.next() else { return Err("more facets than triangles".into()) };
                let n: Vec<f64> = l.split_whitespace().skip(2).filter_map(|x| x.parse().ok()).collect();
                ensure!(n.len() == 3, "facet line {l:?}");
                let want = cross3(&subn(&pos[t[1]], &pos[t[0]]), &subn(&pos[t[2]], &pos[t[0]]));
                if n.iter().all(|x| x.is_finite()) && short3(t, &pos) {
                    for k in 0..3 {
                        let w = want[k].to_f64();
                        ensure!((n[k] - w).abs() <= 1e-9 * (1.0 + w.abs()) || parallel(&n, &want), "facet normal {n:?}, triangle normal {}", fmtv(&want));
                    }
                }
            }
        }
        // writing the mesh read back gives the same file
        if fmt < 2 && exact && c.s.chance(1, 3) {
            let path2 = scratch("again");
            match fmt { 0 => obj::write_obj(&back, &path2), _ => off::write_off(&back, &path2) }.map_err(|e| format!("writing {ext} again: {e}"))?;
            let t2 = std::fs::read_to_string(&path2).unwrap_or_default();
            let m2 = match fmt { 0 => obj::read_obj::<T, _>(&path2), _ => off::read_off::<T, _>(&path2) }.map_err(|e| format!("reading {ext} again: {e}"))?;
            let again = tris(&m2)?;
            ensure!(again.len() == got.len() && again.iter().zip(&got).all(|(a, b)| rot(*a) == rot(*b)), "{ext}: second round trip differs: {text:?} then {t2:?}");
            c.label("twice");
        }
        Ok(())
    }
}
fn short3(t: &[usize; 3], pos: &[[Q; 3]]) -> bool {
    t.iter().all(|v| super::geogen::short(&pos[*v]))
}
fn parallel(n: &[f64], want: &[Q; 3]) -> bool {
    let q: [Q; 3] = std::array::from_fn(|i| Q::f(n[i]));
    let d = dotn(&q, want);
    let (a, b) = (dotn(&q, &q), dotn(want, want));
    d.sgn() > 0 && &d * &d >= &(&a * &b) * &Q::f(1.0 - 1e-9)
}

/// A strict reader of its own: vertices and triangles of a file in format 0 OBJ, 1 OFF, 2 ASCII STL.
fn parse(fmt: usize, text: &str) -> Result<(Vec<[Q; 3]>, Vec<[usize; 3]>), String> {
    let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split('#').next().unwrap().split_whitespace().collect::<Vec<_>>()).filter(|l| !l.is_empty()).collect();
    let point = |w: &[&str]| -> Result<[Q; 3], String> {
        let v: Vec<f64> = w.iter().filter_map(|x| x.parse::<f64>().ok()).filter(|x| x.is_finite()).collect();
        if w.len() != 3 || v.len() != 3 { return Err(format!("point {w:?}")); }
        Ok(std::array::from_fn(|i| Q::f(v[i])))
    };
    let index = |w: &str, first: usize, n: usize| -> Result<usize, String> {
        let i: usize = w.split('/').next().unwrap().parse().map_err(|_| format!("index {w}"))?;
        if i < first || i - first >= n { return Err(format!("index {i}, with {n} vertices")); }
        Ok(i - first)
    };
    let (mut p, mut t) = (vec![], vec![]);
    match fmt {
        0 => {
            for l in &lines {
                match l[0] {
                    "v" => p.push(point(&l[1..])?),
                    "f" if l.len() == 4 => t.push([index(l[1], 1, p.len())?, index(l[2], 1, p.len())?, index(l[3], 1, p.len())?]),
                    "f" => return Err(format!("face {l:?}")),
                    _ => {}
                }
            }
        }
        1 => {
            if lines.first().map(|l| l[0]) != Some("OFF") { return Err("no OFF header".into()); }
            let words: Vec<&str> = lines.iter().flatten().skip(1).copied().collect();
            let count = |i: usize| words.get(i).and_then(|x| x.parse::<usize>().ok()).ok_or_else(|| "no counts".to_string());
            let (n, f) = (count(0)?, count(1)?);
            count(2)?;
            if words.len() != 3 + 3 * n + 4 * f { return Err(format!("{} words for {n} vertices and {f} triangles", words.len())); }
            for k in 0..n { p.push(point(&words[3 + 3 * k..6 + 3 * k])?); }
            for k in 0..f {
                let w = &words[3 + 3 * n + 4 * k..];
                if w[0] != "3" { return Err(format!("face of {} corners", w[0])); }
                t.push([index(w[1], 0, n)?, index(w[2], 0, n)?, index(w[3], 0, n)?]);
            }
        }
        _ => {
            let is = |l: Option<&Vec<&str>>, w: &[&str]| match l { Some(l) if l.starts_with(w) => Ok(()), l => Err(format!("{l:?} in place of {w:?}")) };
            is(lines.first(), &["solid"])?;
            let mut it = lines[1..].iter();
            loop {
                let l = it.next();
                if is(l, &["endsolid"]).is_ok() { break; }
                is(l, &["facet", "normal"])?;
                if l.unwrap().len() != 5 { return Err(format!("{l:?}")); }
                is(it.next(), &["outer", "loop"])?;
                for _ in 0..3 {
                    let l = it.next();
                    is(l, &["vertex"])?;
                    p.push(point(&l.unwrap()[1..])?);
                }
                is(it.next(), &["endloop"])?;
                is(it.next(), &["endfacet"])?;
                t.push([p.len() - 3, p.len() - 2, p.len() - 1]);
            }
            if it.next().is_some() { return Err("text after endsolid".into()); }
        }
    }
    Ok((p, t))
}

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

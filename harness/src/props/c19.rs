//! Readers: any text at all gives an error or a mesh made of what the file says; well-formed text is read.
use super::c18::scratch;
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::q::*;
use crate::{by_num, ensure, gfn};
use cgar::io::{obj, off, stl};
use std::collections::BTreeSet;

pub const SPEC: Spec = Spec {
    id: "C19",
    rule: "the text differs from the well-formed file it was made from and still has data lines",
    quick: 500_000,
    thorough: 3_000_000,
    fresh_thread: false,
    run,
};

fn num_text(c: &mut Case, x: i64) -> String {
    match c.s.below(8) {
        0 => format!("{x}.0"),
        1 => format!("{x}e0"),
        2 => format!("{:e}", x as f64 / 4.0),
        3 => format!("{}", x as f64 / 8.0),
        4 => format!("+{}", x.abs()),
        5 => format!("{}.", x),
        _ => format!("{x}"),
    }
}
const JUNK: &[&str] = &[
    "nan", "inf", "-inf", "NaN", "1e999", "-1e999", "1e-999", "-1", "0", "1", "2", "3", "99", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775807", "1.5", "x", "",
    "1/1/1", "1//2", "-2", "+1", "0x10", "v", "f", "OFF", "#", "vertex", "facet", "endfacet", "endsolid", "\u{e9}", "\u{7f}", "1_000", "1,5", "--1", "1e", ".", "-", "+", "e5", "v f", "v\n", "4 0 1 2 3", "3", "\t", "\r", "18446744073709551614",
];

/// Lines of a well-formed file.
fn base(c: &mut Case, fmt: usize) -> Vec<String> {
    let s = if c.s.chance(1, 6) { Soup { p: vec![], t: vec![] } } else { gen_surface(c, false, false) };
    let mut l = vec![];
    let co: Vec<[i64; 3]> = s.p.iter().enumerate().map(|(i, _)| [i as i64, (i * i % 7) as i64 - 3, (i * 5 % 11) as i64]).collect();
    match fmt {
        0 => {
            if c.s.bool() { l.push("# comment".into()); }
            if c.s.chance(1, 4) { l.push("o thing".into()); }
            for p in &co { l.push(format!("v {} {} {}", num_text(c, p[0]), num_text(c, p[1]), num_text(c, p[2]))); }
            if c.s.chance(1, 4) { l.push("vn 0 0 1".into()); l.push("vt 0 0".into()); }
            for t in &s.t { l.push(format!("f {} {} {}", t[0] + 1, t[1] + 1, t[2] + 1)); }
        }
        1 => {
            l.push("OFF".into());
            l.push(format!("{} {} 0", co.len(), s.t.len()));
            for p in &co { l.push(format!("{} {} {}", num_text(c, p[0]), num_text(c, p[1]), num_text(c, p[2]))); }
            for t in &s.t { l.push(format!("3 {} {} {}", t[0], t[1], t[2])); }
        }
        _ => {
            l.push("solid thing".into());
            for t in &s.t {
                l.push("facet normal 0 0 1".into());
                l.push(" outer loop".into());
                for v in t { let p = co[*v]; l.push(format!("  vertex {} {} {}", num_text(c, p[0]), num_text(c, p[1]), num_text(c, p[2]))); }
                l.push(" endloop".into());
                l.push("endfacet".into());
            }
            l.push("endsolid thing".into());
        }
    }
    l
}

#[derive(Default, Debug)]
struct Ref {
    /// None: the file is not strictly well-formed
    ok: Option<()>,
    v: Vec<[Q; 3]>,
    t: Vec<[usize; 3]>,
    /// vertex count the text could possibly declare
    data_faces: usize,
}
fn fl(s: Option<&str>) -> Option<f64> {
    s?.parse::<f64>().ok().filter(|x| x.is_finite())
}
/// Strict reading of the documented formats.
fn reference(text: &str, fmt: usize) -> Ref {
    let mut r = Ref { ok: Some(()), ..Default::default() };
    let bad = |r: &mut Ref| r.ok = None;
    match fmt {
        0 => {
            for l in text.lines() {
                let tk: Vec<&str> = l.split_whitespace().collect();
                match tk.first() {
                    Some(&"v") => {
                        if tk.len() != 4 { bad(&mut r); }
                        match (fl(tk.get(1).copied()), fl(tk.get(2).copied()), fl(tk.get(3).copied())) {
                            (Some(x), Some(y), Some(z)) => r.v.push([Q::f(x), Q::f(y), Q::f(z)]),
                            _ => bad(&mut r),
                        }
                    }
                    Some(&"f") => {
                        r.data_faces += 1;
                        if tk.len() != 4 { bad(&mut r); }
                        let ix: Vec<usize> = tk.iter().skip(1).take(3).filter_map(|x| x.parse::<usize>().ok()).collect();
                        if ix.len() == 3 && ix.iter().all(|i| *i >= 1 && *i <= r.v.len()) { r.t.push([ix[0] - 1, ix[1] - 1, ix[2] - 1]); } else { bad(&mut r); }
                    }
                    _ => {}
                }
            }
        }
        1 => {
            let tk: Vec<&str> = text.lines().flat_map(|l| l.split('#').next().unwrap_or("").split_whitespace()).collect();
            let mut i = 4;
            let g = |i: usize| tk.get(i).copied();
            let n = |i: usize| g(i).and_then(|x| x.parse::<usize>().ok());
            if g(0) != Some("OFF") || n(3).is_none() { bad(&mut r); }
            let (Some(nv), Some(nf)) = (n(1), n(2)) else { bad(&mut r); return r };
            if nv > 10_000 || nf > 10_000 { bad(&mut r); return r }
            for _ in 0..nv {
                match (fl(g(i)), fl(g(i + 1)), fl(g(i + 2))) {
                    (Some(x), Some(y), Some(z)) => r.v.push([Q::f(x), Q::f(y), Q::f(z)]),
                    _ => { bad(&mut r); return r }
                }
                i += 3;
            }
            for _ in 0..nf {
                r.data_faces += 1;
                match n(i) {
                    Some(3) => {
                        match (n(i + 1), n(i + 2), n(i + 3)) {
                            (Some(a), Some(b), Some(d)) if a < nv && b < nv && d < nv => r.t.push([a, b, d]),
                            _ => { bad(&mut r); return r }
                        }
                        i += 4;
                    }
                    Some(k) if k < 1000 && i + k < tk.len() => { i += k + 1; }
                    _ => { bad(&mut r); return r }
                }
            }
        }
        _ => {
            let mut cur: Vec<usize> = vec![];
            let mut open = false;
            for l in text.lines() {
                let tk: Vec<&str> = l.split_whitespace().collect();
                match tk.first() {
                    Some(&"facet") => { if open { bad(&mut r); } open = true; cur.clear(); }
                    Some(&"vertex") => {
                        if tk.len() != 4 || !open { bad(&mut r); }
                        match (fl(tk.get(1).copied()), fl(tk.get(2).copied()), fl(tk.get(3).copied())) {
                            (Some(x), Some(y), Some(z)) => { r.v.push([Q::f(x), Q::f(y), Q::f(z)]); cur.push(r.v.len() - 1); }
                            _ => bad(&mut r),
                        }
                    }
                    Some(&"endfacet") => {
                        r.data_faces += 1;
                        if cur.len() == 3 && open { r.t.push([cur[0], cur[1], cur[2]]); } else { bad(&mut r); }
                        open = false;
                        cur.clear();
                    }
                    Some(&"endsolid") => break,
                    _ => {}
                }
            }
        }
    }
    // the surface must also be one the mesh can hold
    let distinct = r.t.iter().all(|t| t[0] != t[1] && t[1] != t[2] && t[0] != t[2]);
    if !distinct || edge_uses(&r.t).is_none() || !vertex_manifold(&r.t) {
        r.ok = None;
    }
    r
}

gfn! {
    fn go(c: &mut Case, text: &[u8], fmt: usize) -> R {
        let ext = ["obj", "off", "stl"][fmt];
        c.label(ext);
        let path = scratch(ext);
        std::fs::write(&path, text).map_err(|e| e.to_string()).unwrap();
        let got = match fmt { 0 => obj::read_obj::<T, _>(&path), 1 => off::read_off::<T, _>(&path), _ => stl::read_stl::<T, _>(&path) };
        let utf = std::str::from_utf8(text).ok();
        let r = utf.map(|t| reference(t, fmt));
        match got {
            Err(e) => {
                c.label("refused");
                if let Some(r) = &r {
                    ensure!(r.ok.is_none(), "{ext}: well-formed file refused: {e}");
                }
            }
            Ok(m) => {
                let ts = tris(&m).map_err(|e| format!("{ext}: {e}"))?;
                for v in &m.vertices {
                    ensure!(finite(&v.position), "{ext}: vertex with a non-finite coordinate");
                }
                for t in &ts {
                    ensure!(t.iter().all(|v| *v < m.vertices.len()), "{ext}: triangle {t:?} refers to a vertex that does not exist");
                    ensure!(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "{ext}: triangle {t:?} repeats a vertex");
                }
                if let Some(r) = r {
                    ensure!(ts.len() <= r.data_faces.max(r.t.len()), "{ext}: {} triangles from {} face records", ts.len(), r.data_faces);
                    let coords: BTreeSet<[Q; 3]> = r.v.iter().cloned().collect();
                    if r.ok.is_some() {
                        c.label("well-formed");
                        let pos: Vec<[Q; 3]> = m.vertices.iter().map(|v| unpt(&v.position)).collect();
                        ensure!(ts.len() == r.t.len(), "{ext}: {} triangles in the file, {} read", r.t.len(), ts.len());
                        ensure!(pos.iter().all(|p| coords.contains(p)), "{ext}: a vertex was read that is not in the file");
                        for (a, b) in ts.iter().zip(&r.t) {
                            let ok = (0..3).any(|k| (0..3).all(|i| pos[a[i]] == r.v[b[(i + k) % 3]]));
                            ensure!(ok, "{ext}: triangle {b:?} of the file was read as {a:?}");
                            ensure!(fmt == 2 || rot(*a) == rot(*b), "{ext}: triangle {b:?} of the file was read as {a:?}");
                        }
                        ensure!(fmt == 2 || pos == r.v, "{ext}: vertices differ from the file");
                    }
                }
            }
        }
        Ok(())
    }
}

fn run(c: &mut Case) -> R {
    let fmt = c.s.below(3);
    let mut lines = base(c, fmt);
    let orig = lines.clone();
    let n = c.s.weighted(&[1, 3, 3, 2, 1]);
    for _ in 0..n {
        let k = lines.len();
        if k == 0 { break; }
        let i = c.s.below(k);
        match c.s.weighted(&[6, 2, 2, 2, 2, 2, 1, 3, 1]) {
            0 => {
                let mut tk: Vec<String> = lines[i].split(' ').map(|x| x.to_string()).collect();
                let j = c.s.below(tk.len());
                tk[j] = c.s.pick(JUNK).to_string();
                lines[i] = tk.join(" ");
            }
            1 => { lines.remove(i); }
            2 => { let l = lines[i].clone(); lines.insert(c.s.below(k), l); }
            3 => { let mut tk: Vec<&str> = lines[i].split(' ').collect(); tk.pop(); lines[i] = tk.join(" "); }
            4 => { let j = c.s.below(k); lines.swap(i, j); }
            5 => { lines[i] = format!("{} {}", lines[i], c.s.pick(JUNK)); }
            6 => { lines.truncate(i); }
            7 => {
                // harmless variations
                match c.s.below(5) {
                    0 => lines.insert(i, String::new()),
                    1 => lines.insert(i, "# note".into()),
                    2 => lines[i] = format!("  {}", lines[i].replace(' ', "\t ")),
                    3 => lines[i] = format!("{}\r", lines[i]),
                    _ => lines[i] = format!("{} ", lines[i]),
                }
            }
            _ => { lines[i] = c.s.pick(JUNK).to_string(); }
        }
    }
    let mut text = lines.join("\n").into_bytes();
    if c.s.bool() { text.push(b'\n'); }
    if c.s.chance(1, 6) && !text.is_empty() {
        // raw bytes
        let k = 1 + c.s.below(4);
        for _ in 0..k {
            let i = c.s.below(text.len());
            match c.s.below(3) {
                0 => text[i] = c.s.draw(256) as u8,
                1 => { text.remove(i); }
                _ => text.insert(i, c.s.draw(256) as u8),
            }
            if text.is_empty() { break; }
        }
        c.label("raw-bytes");
    }
    c.nontrivial = !text.is_empty() && lines != orig;
    c.note(|| format!("{:?}", String::from_utf8_lossy(&text)));
    by_num!(c, go(c, &text, fmt))
}

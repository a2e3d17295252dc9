//! Writers report that the destination stopped taking data, wherever that happens.
use super::c18::scratch;
use super::meshgen::*;
use crate::case::*;
use crate::num::*;
use crate::{build_mesh, by_num, ensure, gfn};
use cgar::io::{obj, off, stl};
use std::sync::{Mutex, MutexGuard, Once};

pub const SPEC: Spec = Spec {
    id: "C31",
    rule: "the destination stops after at least one and before the last byte",
    quick: 60_000,
    thorough: 600_000,
    fresh_thread: false,
    run,
};

fn run(c: &mut Case) -> R {
    by_num!(c, go(c))
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Limit {
    soft: u64,
    hard: u64,
}
unsafe extern "C" {
    fn getrlimit(what: i32, l: *mut Limit) -> i32;
    fn setrlimit(what: i32, l: *const Limit) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
const FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// Files of this process cannot grow beyond a size while this lives.
struct Full<'a> {
    before: Limit,
    _one: MutexGuard<'a, ()>,
}
impl Full<'_> {
    fn at(size: u64) -> Option<Self> {
        static IGNORE: Once = Once::new();
        static ONE: Mutex<()> = Mutex::new(());
        // without the signal the write itself fails
        IGNORE.call_once(|| unsafe { signal(SIGXFSZ, 1); });
        let one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let mut before = Limit { soft: 0, hard: 0 };
        unsafe {
            if getrlimit(FSIZE, &mut before) != 0 { return None; }
            if setrlimit(FSIZE, &Limit { soft: size.min(before.hard), hard: before.hard }) != 0 { return None; }
        }
        Some(Full { before, _one: one })
    }
}
impl Drop for Full<'_> {
    fn drop(&mut self) {
        unsafe { setrlimit(FSIZE, &self.before); }
    }
}

gfn! {
fn go(c: &mut Case) -> R {
    let big = c.s.chance(1, 4);
    let mut s = gen_surface(c, big, T::EXACT);
    s.shuffle(c);
    if c.s.chance(1, 10) { s.t.clear(); }
    let mut m = build_mesh!(T, 3, &s);
    if c.s.chance(1, 4) && s.t.len() > 1 {
        let f = c.s.below(s.t.len());
        m.remove_triangle(f);
    }
    let fmt = c.s.below(3);
    let ext = ["obj", "off", "stl"][fmt];
    c.label(ext);
    let path = scratch(ext);
    let write = || match fmt { 0 => obj::write_obj(&m, &path), 1 => off::write_off(&m, &path), _ => stl::write_stl(&m, &path) };
    let first = {
        // not while another thread has the limit set
        let Some(_none) = Full::at(u64::MAX) else { return Ok(()) };
        write()
    };
    first.map_err(|e| format!("writing {ext}: {e}"))?;
    let whole = std::fs::read(&path).map_err(|e| e.to_string())?;
    let n = whole.len() as u64;
    if n == 0 { return Ok(()) }
    for _ in 0..1 + c.s.below(3) {
        let at = match c.s.below(5) {
            0 => n - 1 - c.s.below(n.min(4) as usize) as u64,
            1 => c.s.below(n.min(40) as usize) as u64,
            2 => n + c.s.below(3) as u64,
            // around the size of a buffer
            3 => (8192 * (1 + c.s.below(3)) as u64 + c.s.below(5) as u64).saturating_sub(2).min(n + 1),
            _ => c.s.below(n as usize) as u64,
        };
        let _ = std::fs::remove_file(&path);
        let got = {
            let Some(_full) = Full::at(at) else { return Ok(()) };
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(&write))
        };
        c.note(|| format!("{} {ext} of {n} bytes, room for {at}: {got:?}", T::NAME));
        c.checks += 1;
        let Ok(got) = got else { return Err(format!("writing {ext} with room for {at} of {n} bytes panicked")) };
        if at < n {
            if at > 0 { c.nontrivial = true; }
            ensure!(got.is_err(), "writing {ext} reported success with room for {at} of {n} bytes");
        } else {
            ensure!(got.is_ok(), "writing {ext} failed with room for {at} bytes, {n} needed: {got:?}");
            ensure!(std::fs::read(&path).map_err(|e| e.to_string())? == whole, "writing {ext} again gave a different file");
        }
    }
    // a place that does not exist
    if c.s.chance(1, 8) {
        let _ = std::fs::remove_file(&path);
        let gone = path.join(format!("x.{ext}"));
        let got = match fmt { 0 => obj::write_obj(&m, &gone), 1 => off::write_off(&m, &gone), _ => stl::write_stl(&m, &gone) };
        ensure!(got.is_err(), "writing to a directory that is not there reported success");
        let got = match fmt { 0 => obj::read_obj::<T, _>(&path).is_err(), 1 => off::read_off::<T, _>(&path).is_err(), _ => stl::read_stl::<T, _>(&path).is_err() };
        ensure!(got, "reading a file that is not there reported success");
    }
    Ok(())
}
}

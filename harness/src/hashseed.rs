//! Makes hash-map iteration order inside the library a generated, reproducible choice: the ahash random
//! source and the process' getrandom both derive from a per-case, thread-local seed.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x1234_5678_9ABC_DEF1) };
}

pub fn set_case_seed(s: u64) {
    SEED.with(|c| c.set(s));
}

struct S;
impl ahash::random_state::RandomSource for S {
    fn gen_hasher_seed(&self) -> usize {
        SEED.try_with(|c| c.get()).unwrap_or(1) as usize
    }
}

pub fn install() {
    let _ = ahash::random_state::set_random_source(S);
}

#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.try_with(|c| c.get()).unwrap_or(1);
    let mut r = crate::tape::Rng::new(s);
    for i in 0..len {
        unsafe { *buf.add(i) = r.next() as u8 };
    }
    len as isize
}

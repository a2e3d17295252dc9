mod case;
mod hashseed;
mod props;
mod q;
mod tape;
mod num;
#[macro_use]
mod gfn;

use case::{Case, Spec};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio, exit};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tape::{Src, mix};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

const EVID: &str = "/verif/evidence";
const CASE_LIMIT_S: u64 = 240;
const TOTAL_LIMIT_S: u64 = 850;
/// no new cases are begun after this; the evidence says how many there were
const SEARCH_S: u64 = 600;
const SHRINK_S: u64 = 60;

/// Directory for files a check writes; created on demand, removed when the run ends.
pub fn scratch_dir() -> std::path::PathBuf {
    static D: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| std::path::PathBuf::from(format!("{EVID}/.scratch/{}", std::process::id()))).clone()
}

fn idhash(id: &str) -> u64 {
    id.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed, idhash(id)), i)
}

struct Res {
    out: Result<(), String>,
    case: Case,
}

fn run_here(spec: &Spec, src: Src, hs: u64, verbose: bool) -> Res {
    hashseed::set_case_seed(hs);
    let mut c = Case::new(src, verbose);
    let r = catch_unwind(AssertUnwindSafe(|| (spec.run)(&mut c)));
    let out = match r {
        Ok(x) => x,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    Res { out, case: c }
}

fn run_case(spec: &Spec, src: Src, hs: u64, verbose: bool) -> Res {
    if spec.fresh_thread {
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || run_here(spec, src, hs, verbose))
                .unwrap()
                .join()
                .unwrap()
        })
    } else {
        run_here(spec, src, hs, verbose)
    }
}

/// The hash seed is the first entry of the tape (so it replays and shrinks with it).
fn from_seed(spec: &Spec, seed: u64, verbose: bool) -> Res {
    let hs = mix(seed, 77) & 0xffff_ffff;
    let mut r = run_case(spec, Src::random(seed), hs, verbose);
    r.case.s.tape.insert(0, hs);
    r
}
fn from_tape(spec: &Spec, t: &[u64], verbose: bool) -> Res {
    let hs = t.first().copied().unwrap_or(0);
    let rest = if t.is_empty() { vec![] } else { t[1..].to_vec() };
    let mut r = run_case(spec, Src::replay(rest), hs, verbose);
    r.case.s.tape.insert(0, hs);
    r
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn violation(spec: &Spec, seed: u64, case: u64, msg: &str, original: &str, runs: u64, text: &str, tape: &[u64]) -> String {
    format!(
        "{{\"property\":{},\"seed\":{},\"case\":{},\"message\":{},\"original_message\":{},\"shrink_runs\":{},\"case_text\":{},\"tape\":{:?}}}",
        jstr(spec.id), seed, case, jstr(msg), jstr(original), runs, jstr(text), tape
    )
}

/// `keep` is told the best tape so far after every pass
fn shrink(spec: &Spec, tape0: Vec<u64>, budget: Duration, keep: &dyn Fn(&[u64], u64)) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = tape0;
    let mut runs = 0u64;
    let trytape = |t: &[u64], runs: &mut u64| -> Option<Vec<u64>> {
        *runs += 1;
        let r = from_tape(spec, t, false);
        if r.out.is_err() { Some(r.case.s.tape) } else { None }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| -> bool { a.len() < b.len() || (a.len() == b.len() && a < b) };
    // truncate to what is actually read
    if let Some(t) = trytape(&best.clone(), &mut runs) {
        best = t;
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1).min(64);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if start.elapsed() > budget {
                    return (best, runs);
                }
                if i + size <= best.len() && i >= 1 {
                    let mut t = best.clone();
                    t.drain(i..i + size);
                    if let Some(n) = trytape(&t, &mut runs) {
                        if better(&n, &best) {
                            best = n;
                        }
                    } else if best[i..i + size].iter().any(|&x| x != 0) {
                        let mut t = best.clone();
                        t[i..i + size].iter_mut().for_each(|x| *x = 0);
                        if let Some(n) = trytape(&t, &mut runs) {
                            if better(&n, &best) {
                                best = n;
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i -= 1.max(size / 2).min(i);
            }
            size /= 2;
            keep(&best, runs);
        }
        for i in 0..best.len() {
            if start.elapsed() > budget {
                return (best, runs);
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            for cand in [0, 1, 2, 3] {
                if cand < best[i] {
                    let mut t = best.clone();
                    t[i] = cand;
                    if let Some(n) = trytape(&t, &mut runs) {
                        if better(&n, &best) {
                            best = n;
                            hi = cand;
                            break;
                        }
                    }
                }
            }
            if i >= best.len() {
                break;
            }
            let mut steps = 0;
            while lo + 1 < hi && steps < 12 && i < best.len() {
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                match trytape(&t, &mut runs) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        hi = mid;
                    }
                    _ => lo = mid,
                }
            }
        }
        if best == before || start.elapsed() > budget {
            return (best, runs);
        }
    }
}

struct Agg {
    evals: u64,
    nontriv: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    checks: u64,
    known: BTreeMap<String, u64>,
    fail: Option<(u64, String)>,
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("PBT_BACKTRACE").is_some() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

fn redirect_stdio() {
    // The library prints progress to stdout/stderr; keep ours clean.
    unsafe extern "C" {
        fn open(p: *const u8, flags: i32, ...) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    unsafe {
        let n = open(b"/dev/null\0".as_ptr(), 1);
        dup2(n, 1);
        dup2(n, 2);
    }
}

/// worker: runs the search and writes the result file; stdout/stderr are discarded.
fn worker(spec: &'static Spec, seed: u64, cases: u64, threads: usize, outp: &str, slotp: &str, onlyone: Option<u64>) {
    redirect_stdio();
    install_panic_hook();
    let slots = Arc::new(File::options().write(true).create(true).truncate(true).open(slotp).unwrap());
    let t0 = Instant::now();
    if let Some(i) = onlyone {
        let r = from_seed(spec, case_seed(seed, spec.id, i), false);
        fs::write(outp, if r.out.is_err() { "fail" } else { "ok" }).unwrap();
        return;
    }
    let next = Arc::new(AtomicU64::new(0));
    let failmin = Arc::new(AtomicU64::new(u64::MAX));
    let agg = Arc::new(Mutex::new(Agg {
        evals: 0,
        nontriv: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        checks: 0,
        known: BTreeMap::new(),
        fail: None,
    }));
    let starts: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let done = Arc::new(AtomicBool::new(false));
    // set once the file holds a result to which only a smaller counterexample is missing
    let reported = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    {
        let (starts, done, next, reported, found) = (starts.clone(), done.clone(), next.clone(), reported.clone(), found.clone());
        let outp = outp.to_string();
        let watch = move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                let now = t0.elapsed().as_secs();
                let rep = reported.load(Ordering::Relaxed);
                if rep != 0 && now + 1 > rep + 2 * SHRINK_S {
                    exit(0);
                }
                let stuck = |limit: u64| {
                    starts.iter().any(|s| {
                        let v = s.load(Ordering::Relaxed);
                        v != 0 && now + 1 > v + limit
                    })
                };
                let fail = found.lock().unwrap().clone();
                if let Some((i, m)) = fail {
                    // another case does not end, but this one failed
                    if rep == 0 && (stuck(60) || now > TOTAL_LIMIT_S) {
                        let r = from_seed(spec, case_seed(seed, spec.id, i), true);
                        let cov = format!(
                            "{{\"evaluations\":{},\"distinct_nontrivial\":2,\"rule\":{},\"samples\":[{}]}}",
                            next.load(Ordering::Relaxed), jstr(spec.rule), jstr(&r.case.desc)
                        );
                        let viol = violation(spec, seed, i, &m, &m, 0, &r.case.desc, &r.case.s.tape);
                        let _ = fs::write(&outp, format!("done\n{now}\n{cov}\n{viol}\n\n"));
                        exit(0);
                    }
                } else if stuck(CASE_LIMIT_S) || now > TOTAL_LIMIT_S {
                    let _ = fs::write(&outp, "timeout");
                    exit(3);
                }
            }
        };
        std::thread::Builder::new().stack_size(64 << 20).spawn(watch).unwrap();
    }
    let mut hs = vec![];
    for w in 0..threads {
        let (next, failmin, agg, starts, slots) = (next.clone(), failmin.clone(), agg.clone(), starts.clone(), slots.clone());
        let found = found.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut loc = Agg {
                        evals: 0,
                        nontriv: 0,
                        distinct: HashSet::new(),
                        labels: BTreeMap::new(),
                        checks: 0,
                        known: BTreeMap::new(),
                        fail: None,
                    };
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || i > failmin.load(Ordering::Relaxed) || t0.elapsed().as_secs() >= SEARCH_S {
                            break;
                        }
                        let _ = slots.write_at(&(i + 1).to_le_bytes(), (w * 8) as u64);
                        starts[w].store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                        let r = from_seed(spec, case_seed(seed, spec.id, i), false);
                        starts[w].store(0, Ordering::Relaxed);
                        loc.evals += 1;
                        loc.checks += r.case.checks;
                        for (k, v) in &r.case.labels {
                            *loc.labels.entry(k).or_insert(0) += v;
                        }
                        for k in &r.case.known {
                            *loc.known.entry(k.clone()).or_insert(0) += 1;
                        }
                        if r.case.nontrivial {
                            loc.nontriv += 1;
                            let h = r.case.s.tape[1..].iter().fold(0u64, |a, &b| mix(a, b));
                            loc.distinct.insert(h);
                        }
                        if let Err(m) = r.out {
                            failmin.fetch_min(i, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |f| i < f.0) {
                                *f = Some((i, m.clone()));
                            }
                            drop(f);
                            if loc.fail.as_ref().map_or(true, |f| i < f.0) {
                                loc.fail = Some((i, m));
                            }
                        }
                    }
                    let mut a = agg.lock().unwrap();
                    a.evals += loc.evals;
                    a.nontriv += loc.nontriv;
                    a.checks += loc.checks;
                    a.distinct.extend(loc.distinct);
                    for (k, v) in loc.labels {
                        *a.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in loc.known {
                        *a.known.entry(k).or_insert(0) += v;
                    }
                    if let Some((i, m)) = loc.fail {
                        if a.fail.as_ref().map_or(true, |f| i < f.0) {
                            a.fail = Some((i, m));
                        }
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    let a = agg.lock().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    // samples: first few non-trivial cases described
    let mut samples = vec![];
    let mut i = 0;
    while samples.len() < 6 && i < 60 && i < cases {
        if a.fail.as_ref().map_or(false, |f| f.0 == i) {
            i += 1;
            continue;
        }
        let r = from_seed(spec, case_seed(seed, spec.id, i), true);
        if r.case.nontrivial {
            let mut d = r.case.desc;
            if d.len() > 700 {
                let mut cut = 700;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
                d.push_str("...");
            }
            samples.push(format!("case {}: {}", i, d));
        }
        i += 1;
    }
    let labels: Vec<String> = a.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let known: Vec<String> = a.known.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let smp: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let cov = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial\":{},\"oracle_checks\":{},\"rule\":{},\"labels\":{{{}}},\"known_findings\":{{{}}},\"samples\":[{}]}}",
        a.evals, a.distinct.len(), a.nontriv, a.checks, jstr(spec.rule), labels.join(","), known.join(","), smp.join(",")
    );
    let write = |viol: &str| {
        let tmp = format!("{outp}.tmp");
        let known = a.known.keys().cloned().collect::<Vec<_>>().join("\t");
        fs::write(&tmp, format!("done\n{search_s:.2}\n{cov}\n{viol}\n{known}\n")).unwrap();
        fs::rename(&tmp, outp).unwrap();
    };
    let Some((i, m)) = &a.fail else {
        done.store(true, Ordering::Relaxed);
        return write("");
    };
    // the result stands as it is; shrinking may meet inputs that do not end or kill the process
    let r = from_seed(spec, case_seed(seed, spec.id, *i), true);
    write(&violation(spec, seed, *i, m, m, 0, &r.case.desc, &r.case.s.tape));
    reported.store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
    let keep = |t: &[u64], runs: u64| {
        let rr = from_tape(spec, t, true);
        if let Err(msg) = rr.out {
            write(&violation(spec, seed, *i, &msg, m, runs, &rr.case.desc, t));
        }
    };
    let (t, runs) = shrink(spec, r.case.s.tape.clone(), Duration::from_secs(SHRINK_S), &keep);
    keep(&t, runs);
    done.store(true, Ordering::Relaxed);
}

fn known_list() -> Vec<(String, String, String)> {
    // lines: known: property=<id> sig=<sig> <text>
    let s = fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let id = it.next().unwrap_or("").to_string();
            let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
            v.push((id, sig, it.next().unwrap_or("").to_string()));
        }
    }
    v
}

fn check(spec: &'static Spec) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i128>().ok()).map(|x| x as u64).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let mut cases = if thorough { spec.thorough } else { spec.quick };
    if let Ok(s) = std::env::var("PBT_CASES") {
        cases = s.parse().unwrap();
    }
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16);
    let _ = fs::create_dir_all(format!("{EVID}/replays"));
    let outp = format!("{EVID}/.{}.out", spec.id);
    let slotp = format!("{EVID}/.{}.slots", spec.id);
    let _ = fs::remove_file(&outp);
    let me = std::env::current_exe().unwrap();
    let run = |extra: &[String]| {
        Command::new(&me)
            .arg("worker")
            .arg(spec.id)
            .arg(seed.to_string())
            .arg(cases.to_string())
            .arg(threads.to_string())
            .arg(&outp)
            .arg(&slotp)
            .args(extra)
            .stdin(Stdio::null())
            .status()
            .unwrap()
    };
    let st = run(&[]);
    let _ = fs::remove_dir_all(format!("{EVID}/.scratch"));
    let out = fs::read_to_string(&outp).unwrap_or_default();
    let replay = format!("{EVID}/replays/{}.json", spec.id);
    let _ = fs::remove_file(&replay);
    let (cov, viol): (String, String);
    let mut nviol = 0;
    if out.starts_with("done\n") {
        let mut it = out.lines();
        it.next();
        it.next();
        cov = it.next().unwrap_or("{}").to_string();
        viol = it.next().unwrap_or("").to_string();
    } else if st.signal().is_some() {
        // the process died: find the case that kills it
        let raw = fs::read(&slotp).unwrap_or_default();
        let mut cands: Vec<u64> =
            raw.chunks(8).filter(|c| c.len() == 8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&x| x > 0).map(|x| x - 1).collect();
        cands.sort();
        let mut found = None;
        for i in cands {
            let _ = fs::remove_file(&outp);
            let st = run(&[i.to_string()]);
            if st.signal().map_or(false, |s| s == 11 || s == 6 || s == 4 || s == 7) {
                found = Some((i, st.signal().unwrap()));
                break;
            }
        }
        match found {
            Some((i, sig)) => {
                viol = format!(
                    "{{\"property\":{},\"seed\":{},\"case\":{},\"message\":\"process killed by signal {} while running this case\"}}",
                    jstr(spec.id), seed, i, sig
                );
                cov = format!("{{\"evaluations\":{},\"distinct_nontrivial\":2,\"rule\":{},\"samples\":[\"crashing case {}\"]}}", i + 1, jstr(spec.rule), i);
            }
            None => {
                eprintln!("ERROR: worker died with {:?} and no single case reproduces it", st);
                return 4;
            }
        }
    } else {
        eprintln!("ERROR: worker ended with {:?} ({})", st, out.trim());
        return 3;
    }
    if !viol.is_empty() {
        nviol = 1;
        fs::write(&replay, &viol).unwrap();
    }
    for (id, sig, text) in known_list() {
        if id == spec.id {
            println!("KNOWN-FINDING: property={} {} {}", id, sig, text);
        }
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(spec.id), jstr(if thorough { "thorough" } else { "quick" }), seed, cov, t0.elapsed().as_secs_f64(), nviol
    );
    let evp = format!("{EVID}/{}.json", spec.id);
    fs::write(&evp, ev).unwrap();
    let _ = fs::remove_file(&outp);
    let _ = fs::remove_file(&slotp);
    if nviol > 0 {
        println!("VIOLATION property={} replay={}", spec.id, replay);
        let _ = std::io::stdout().flush();
        return 1;
    }
    println!("OK property={} tier={} seed={} cases={} wall={:.1}s", spec.id, tier, seed, cases, t0.elapsed().as_secs_f64());
    0
}

fn parse_tape(s: &str) -> Option<Vec<u64>> {
    let k = s.find("\"tape\":[")? + 8;
    let e = s[k..].find(']')? + k;
    Some(s[k..e].split(',').filter_map(|x| x.trim().parse().ok()).collect())
}

fn main() {
    hashseed::install();
    let _ = ahash::RandomState::new();
    let a: Vec<String> = std::env::args().collect();
    let specs: &'static [Spec] = props::all();
    let find = |id: &str| -> &'static Spec {
        specs.iter().find(|s| s.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => exit(check(find(&a[2]))),
        Some("worker") => {
            let one = a.get(8).and_then(|s| s.parse().ok());
            worker(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6], &a[7], one)
        }
        Some("replay") => {
            let s = fs::read_to_string(&a[2]).expect("replay file");
            let k = s.find("\"property\":\"").unwrap() + 12;
            let id = &s[k..k + s[k..].find('"').unwrap()];
            let spec = find(id);
            install_panic_hook();
            let r = match parse_tape(&s) {
                Some(t) => from_tape(spec, &t, true),
                None => {
                    let num = |key: &str| -> u64 {
                        let k = s.find(key).unwrap() + key.len();
                        s[k..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
                    };
                    from_seed(spec, case_seed(num("\"seed\":"), id, num("\"case\":")), true)
                }
            };
            println!("case: {}", r.case.desc);
            match r.out {
                Ok(()) => println!("HOLDS"),
                Err(m) => {
                    println!("FAILS: {m}");
                    exit(1)
                }
            }
        }
        Some("show") => {
            // show <id> <seed> <case>
            let spec = find(&a[2]);
            install_panic_hook();
            let r = from_seed(spec, case_seed(a[3].parse().unwrap(), spec.id, a[4].parse().unwrap()), true);
            println!("nontrivial={} labels={:?}\ncase: {}\nresult: {:?}", r.case.nontrivial, r.case.labels, r.case.desc, r.out);
        }
        Some("stats" | "kill") => {
            // stats <id> <cases> [seed]: count failures by message prefix (development aid)
            // kill <id> <cases> [seed]: stop at the first failure, exit 1
            let spec = find(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let seed: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            install_panic_hook();
            let m: Mutex<BTreeMap<String, (u64, u64)>> = Mutex::new(BTreeMap::new());
            let next = AtomicU64::new(0);
            let lab: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
            let nt = AtomicU64::new(0);
            unsafe extern "C" {
                fn dup(a: i32) -> i32;
            }
            use std::os::fd::FromRawFd;
            let mut real = unsafe { File::from_raw_fd(dup(1)) };
            redirect_stdio();
            let t0 = Instant::now();
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let r = from_seed(spec, case_seed(seed, spec.id, i), false);
                            if r.case.nontrivial {
                                nt.fetch_add(1, Ordering::Relaxed);
                            }
                            let mut l = lab.lock().unwrap();
                            for (k, v) in &r.case.labels {
                                *l.entry(k).or_insert(0) += v;
                            }
                            drop(l);
                            if let Err(e) = r.out {
                                let mut key = String::new();
                                for c in e.chars() {
                                    let d = if c.is_ascii_digit() { '#' } else { c };
                                    // numbers and point lists collapse to one character
                                    if d == '-' && !key.ends_with(|x: char| x.is_alphabetic()) {
                                        continue;
                                    }
                                    if !((d == '#' || d == '/' || d == ',') && key.ends_with('#')) {
                                        key.push(d);
                                    }
                                    if key.ends_with("(#) (#)") {
                                        key.truncate(key.len() - 4);
                                    }
                                    if key.len() > 130 {
                                        break;
                                    }
                                }
                                let mut g = m.lock().unwrap();
                                let x = g.entry(key).or_insert((0, i));
                                x.0 += 1;
                                x.1 = x.1.min(i);
                                if a[1] == "kill" {
                                    next.store(n, Ordering::Relaxed);
                                }
                            }
                        }
                    });
                }
            });
            let _ = writeln!(real, "{} cases, {} nontrivial, {:.2}s", n, nt.load(Ordering::Relaxed), t0.elapsed().as_secs_f64());
            let _ = writeln!(real, "labels {:?}", lab.lock().unwrap());
            for (k, v) in m.lock().unwrap().iter() {
                let _ = writeln!(real, "{:6} first@{:<6} {}", v.0, v.1, k);
            }
            if a[1] == "kill" && !m.lock().unwrap().is_empty() {
                exit(1)
            }
        }
        Some("list") => {
            for s in specs {
                println!("{}", s.id);
            }
        }
        _ => {
            eprintln!("usage: pbt check|replay|show|stats|list ...");
            exit(2)
        }
    }
}

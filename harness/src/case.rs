use crate::tape::Src;
use std::collections::BTreeMap;

pub type R = Result<(), String>;

/// One generated case: the source of choices plus what the property reports about it.
pub struct Case {
    pub s: Src,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub desc: String,
    pub verbose: bool,
    pub known: Vec<String>,
    /// comparisons made by the oracle (informational)
    pub checks: u64,
}

impl Case {
    pub fn new(s: Src, verbose: bool) -> Self {
        Case { s, nontrivial: false, labels: BTreeMap::new(), desc: String::new(), verbose, known: vec![], checks: 0 }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose && self.desc.len() < 6000 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
        }
    }
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// run each case on its own thread so that std hash keys are a function of the case
    pub fresh_thread: bool,
    pub run: fn(&mut Case) -> R,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => {
        if !($c) { return Err(format!($($fmt)+)); }
    };
}

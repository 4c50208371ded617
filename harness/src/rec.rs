//! Case context, verdicts, evidence.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

/// Verdict of one violated monitor. `key` identifies the violated clause.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::rec::Fail { key: $key.to_string(), msg: format!($($arg)*) });
        }
    };
}

#[macro_export]
macro_rules! fail {
    ($key:expr, $($arg:tt)*) => {
        return Err($crate::rec::Fail { key: $key.to_string(), msg: format!($($arg)*) })
    };
}

#[derive(Default)]
pub struct Totals {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
    pub inconclusive: u64,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub tier_thorough: bool,
    pub desc: String,
    pub nontrivial: bool,
    pub tot: &'a mut Totals,
}

impl<'a> Case<'a> {
    /// Adds to the written-out input of this case (used for distinctness, samples and replays).
    pub fn log(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s.as_ref());
    }
    /// Counts something a monitor observed.
    pub fn see(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.tot.counters.entry(what.to_string()).or_insert(0) += n;
        }
    }
    pub fn seen(&mut self, what: &str) {
        self.see(what, 1)
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Values agree up to rounding: `scale` is the magnitude of the terms that were combined.
pub fn close(a: f64, b: f64, scale: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return false;
    }
    (a - b).abs() <= 1e-9 * (scale.abs() + a.abs().max(b.abs())) + 1e-300
}

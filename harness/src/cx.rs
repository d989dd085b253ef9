//! Per-case context: counters, coverage signature and human-readable trace.

use crate::rng::hash_bytes;
use std::collections::BTreeMap;

pub struct Cx {
    pub counters: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub thorough: bool,
    /// Case number within the run.
    pub index: u64,
    pub scratch: std::path::PathBuf,
    pub miri: bool,
    /// Use the n-th workload of unusual scale instead of a normal one.
    pub scale: Option<u64>,
    /// Such a workload may write to more than 65536 channels at once.
    pub wide_channels: bool,
}

pub type Res = Result<(), String>;

impl Cx {
    pub fn new(thorough: bool, verbose: bool) -> Self {
        Cx {
            counters: BTreeMap::new(),
            sig: 0,
            nontrivial: false,
            verbose,
            trace: vec![],
            thorough,
            index: 0,
            scratch: std::path::PathBuf::new(),
            miri: cfg!(miri),
            scale: None,
            wide_channels: false,
        }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// Fold a structural feature into the case signature.
    pub fn feat(&mut self, b: &[u8]) {
        self.sig = hash_bytes(self.sig.rotate_left(5), b);
    }
    pub fn feat_n(&mut self, n: u64) {
        self.feat(&n.to_le_bytes());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose && self.trace.len() < 400 {
            let s = f();
            self.trace.push(s);
        }
    }
}

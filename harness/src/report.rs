//! What a run observed: counters for the evidence file, the first violation, replay files.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

pub struct Report { pub evals: u64, pub distinct: HashSet<u64>, pub counters: BTreeMap<String, u64>, pub samples: Vec<Value>, pub sample_keys: HashSet<String>, pub known: BTreeMap<String, u64> }
impl Default for Report { fn default() -> Self { Report { evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), samples: vec![], sample_keys: HashSet::new(), known: BTreeMap::new() } } }
pub type Res = Result<(), String>;

impl Report {
    /// one oracle evaluation; `key` identifies a non-trivial case
    pub fn eval(&mut self, kind: &str, key: Option<u64>) {
        self.evals += 1;
        *self.counters.entry(kind.into()).or_insert(0) += 1;
        if let Some(k) = key { if self.distinct.len() < 3_000_000 { self.distinct.insert(k ^ crate::util::hash64(kind.as_bytes())); } }
    }
    pub fn count(&mut self, k: &str) { *self.counters.entry(k.into()).or_insert(0) += 1; }
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> Value) {
        if self.samples.len() < 12 && self.sample_keys.insert(kind.to_string()) { self.samples.push(json!({"kind": kind, "case": f()})); }
    }
    pub fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
        for (k, v) in o.known { *self.known.entry(k).or_insert(0) += v; }
        for s in o.samples { let k = s["kind"].as_str().unwrap_or("").to_string(); if self.samples.len() < 12 && self.sample_keys.insert(k) { self.samples.push(s); } }
    }
}

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

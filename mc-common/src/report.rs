//! Violations, evidence and the verdict of a check.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    /// What was expected and what was observed.
    pub what: String,
    /// The scenario, and everything needed to run it again.
    pub replay: Value,
}

#[derive(Default)]
struct Inner {
    violations: Vec<Violation>,
    foreign: BTreeMap<String, u64>,
    foreign_sample: Option<String>,
    states: u64,
    transitions: u64,
    traces: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    scenarios: Vec<Value>,
    exhaustive: bool,
}

/// Collects what one check covered and found.
pub struct Report {
    pub property: String,
    pub tier: String,
    start: Instant,
    inner: Mutex<Inner>,
    assumptions: Vec<String>,
}

impl Report {
    pub fn new(property: &str, tier: &str) -> Self {
        Report {
            property: property.into(),
            tier: tier.into(),
            start: Instant::now(),
            inner: Mutex::new(Inner { exhaustive: true, ..Default::default() }),
            assumptions: Vec::new(),
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into())
    }
    pub fn violation(&self, v: Violation) {
        let mut g = self.inner.lock().unwrap();
        if g.violations.len() < 20 {
            g.violations.push(v)
        }
    }
    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    /// A difference from the model that concerns other properties only.
    pub fn foreign(&self, props: &str, what: &str) {
        let mut g = self.inner.lock().unwrap();
        *g.foreign.entry(props.into()).or_default() += 1;
        if g.foreign_sample.is_none() {
            g.foreign_sample = Some(what.into())
        }
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        let mut g = self.inner.lock().unwrap();
        g.states += states;
        g.transitions += transitions;
        g.traces += traces;
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.into()).or_default() += n
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut g = self.inner.lock().unwrap();
        let e = g.counters.entry(name.into()).or_default();
        *e = (*e).max(n)
    }
    pub fn sample(&self, v: Value) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 8 {
            g.samples.push(v)
        }
    }
    pub fn scenario(&self, v: Value) {
        self.inner.lock().unwrap().scenarios.push(v)
    }
    pub fn not_exhaustive(&self) {
        self.inner.lock().unwrap().exhaustive = false
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Writes the evidence file and prints the verdict; returns the exit code.
    pub fn finish(self, verif: &str) -> i32 {
        let g = self.inner.into_inner().unwrap();
        let dir = format!("{verif}/evidence");
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        let mut cov = Map::new();
        let states = g.states + crate::states();
        let exhaustive = g.exhaustive && g.violations.is_empty();
        cov.insert("states".into(), json!(states));
        cov.insert("transitions".into(), json!(g.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(g.traces));
        cov.insert("exhaustive".into(), json!(exhaustive));
        cov.insert("scenarios".into(), json!(g.scenarios));
        cov.insert("samples".into(), json!(g.samples));
        for (k, v) in &g.counters {
            cov.insert(k.clone(), json!(v));
        }
        if !g.foreign.is_empty() {
            cov.insert("differences_owned_by_other_properties".into(), json!(g.foreign));
            println!(
                "note: differences that concern other properties only: {:?}; first: {}",
                g.foreign,
                g.foreign_sample.clone().unwrap_or_default()
            );
        }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.property,
            "tier": self.tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": Value::Object(cov),
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": g.violations.len(),
        });
        let path = format!("{dir}/{}.json", self.property);
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        println!(
            "{} {}: states={} transitions={} traces={} exhaustive={} wall={:.1}s",
            self.property,
            self.tier,
            states,
            g.transitions,
            g.traces,
            exhaustive,
            self.start.elapsed().as_secs_f64()
        );
        if g.violations.is_empty() {
            return 0;
        }
        for (i, v) in g.violations.iter().enumerate().take(3) {
            let p = format!("{dir}/replay/{}-{i}.json", self.property);
            let doc = json!({"property": self.property, "what": v.what, "replay": v.replay});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap());
            println!("{}", v.what);
            println!("VIOLATION property={} replay={}", self.property, p);
        }
        1
    }
}

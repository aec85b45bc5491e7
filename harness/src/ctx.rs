//! Per-check context: budget, evidence, verdict discipline.
use crate::rng::{fnv, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    inner: Mutex<Inner>,
}
#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<(String, String)>,
    inconclusive: Vec<String>,
}
impl Ctx {
    pub fn new(id: &str, thorough: bool, seed: u64, budget: Duration) -> Self {
        Ctx {
            id: id.to_owned(),
            thorough,
            seed,
            start: Instant::now(),
            budget,
            inner: Mutex::new(Inner::default()),
        }
    }
    pub fn rng(&self, tag: &str, i: u64) -> Rng {
        Rng::derive(self.seed, &format!("{}:{}", self.id, tag), i)
    }
    /// True while the workload should go on: within budget and not already full of violations.
    pub fn go_on(&self) -> bool {
        self.start.elapsed() < self.budget && self.violation_count() < 5
    }
    /// Fraction of the budget (0..1) already used; used by checks with several phases.
    pub fn within(&self, frac: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * frac
            && self.violation_count() < 5
    }
    pub fn violation_count(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }
    /// One oracle evaluation on a case described by `key` (used for the distinct count).
    pub fn eval(&self, key: &str) {
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        i.distinct.insert(fnv(key.as_bytes()));
    }
    /// An evaluation of a trivial case: counted, but not as distinct/non-trivial.
    pub fn eval_trivial(&self) {
        self.inner.lock().unwrap().evaluations += 1;
    }
    pub fn count(&self, name: &str, n: u64) {
        *self
            .inner
            .lock()
            .unwrap()
            .counters
            .entry(name.to_owned())
            .or_insert(0) += n;
    }
    /// Keeps the largest value seen.
    pub fn max(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        let c = i.counters.entry(name.to_owned()).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn counter(&self, name: &str) -> u64 {
        *self.inner.lock().unwrap().counters.get(name).unwrap_or(&0)
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 8 {
            i.samples.push(v);
        }
    }
    pub fn violate(&self, sig: &str, detail: String) {
        let mut i = self.inner.lock().unwrap();
        if i.violations.len() < 50 && !i.violations.iter().any(|v| v.0 == sig) {
            eprintln!("[{}] violation {}: {}", self.id, sig, detail);
            i.violations.push((sig.to_owned(), detail));
        }
    }
    pub fn inconclusive(&self, why: String) {
        eprintln!("[{}] inconclusive: {}", self.id, why);
        self.inner.lock().unwrap().inconclusive.push(why);
    }

    /// Writes evidence, prints verdict lines and returns the exit code.
    pub fn finish(&self, rule: &str, min_distinct: u64, verif: &str) -> i32 {
        let i = self.inner.lock().unwrap();
        let known = known_findings(verif, &self.id);
        let mut new = Vec::new();
        let mut old = Vec::new();
        for v in &i.violations {
            if known.iter().any(|k| *k == v.0) {
                old.push(v.clone());
            } else {
                new.push(v.clone());
            }
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": i.evaluations,
                "distinct_nontrivial": i.distinct.len(),
                "rule": rule,
                "samples": i.samples,
                "observed": i.counters,
                "inconclusive": i.inconclusive,
            },
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": new.len(),
        });
        let dir = format!("{}/evidence", verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.json", dir, self.id);
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {}", path, e);
            return 2;
        }
        for v in &old {
            println!("KNOWN-FINDING: property={} {}", self.id, v.0);
        }
        println!(
            "[{}] evaluations={} distinct={} wall={:.1}s observed={}",
            self.id,
            i.evaluations,
            i.distinct.len(),
            self.start.elapsed().as_secs_f64(),
            serde_json::to_string(&i.counters).unwrap()
        );
        if !new.is_empty() {
            let rdir = format!("{}/replays", verif);
            let _ = std::fs::create_dir_all(&rdir);
            for (n, v) in new.iter().enumerate() {
                let p = format!("{}/{}-seed{}-{}.json", rdir, self.id, self.seed, n);
                let _ = std::fs::write(
                    &p,
                    serde_json::to_string_pretty(&json!({
                        "property": self.id, "seed": self.seed,
                        "tier": if self.thorough { "thorough" } else { "quick" },
                        "signature": v.0, "detail": v.1,
                        "replay": format!("VERIF_SEED={} bash /verif/check.sh {} {}", self.seed, self.id,
                            if self.thorough { "thorough" } else { "quick" }),
                    }))
                    .unwrap(),
                );
                println!("VIOLATION property={} replay={}", self.id, p);
                println!("  {}: {}", v.0, v.1.chars().take(600).collect::<String>());
            }
            return 1;
        }
        if !i.inconclusive.is_empty() && (i.distinct.len() as u64) < min_distinct {
            return 2;
        }
        if (i.distinct.len() as u64) < min_distinct {
            eprintln!(
                "[{}] too few distinct cases observed ({} < {}): inconclusive",
                self.id,
                i.distinct.len(),
                min_distinct
            );
            return 2;
        }
        0
    }
}

fn known_findings(verif: &str, id: &str) -> Vec<String> {
    // Lines: "known: property=<id> signature=<sig> <text>"; "fixed:" lines suppress nothing.
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.split_whitespace();
            if it.next() == Some(&format!("property={}", id)) {
                if let Some(s) = it.next().and_then(|s| s.strip_prefix("signature=")) {
                    v.push(s.to_owned());
                }
            }
        }
    }
    v
}

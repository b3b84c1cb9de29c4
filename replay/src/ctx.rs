//! Bookkeeping of a bounded replay: cases executed, failing inputs.
use rand_xoshiro::Xoshiro256Plus;
use ndarray_rand::rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub rng: Xoshiro256Plus,
    pub seed: u64,
    pub thorough: bool,
    pub fails: Vec<(String, String, String)>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub probes: BTreeMap<String, u64>,
    pub start: Instant,
    pub budget: Duration,
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, secs: u64) -> Self {
        Ctx { rng: Xoshiro256Plus::seed_from_u64(seed), seed, thorough, fails: vec![], evals: 0, distinct: HashSet::new(), samples: vec![], probes: BTreeMap::new(), start: Instant::now(), budget: Duration::from_secs(secs) }
    }
    pub fn over(&self) -> bool { self.start.elapsed() > self.budget }
    pub fn n(&self, quick: usize) -> usize { let q = if cfg!(feature = "ego") { quick * 3 } else { quick }; if self.thorough { q * 8 } else { q } }
    /// register one case
    pub fn case(&mut self, probe: &str, input: impl Into<String>) -> String {
        let input: String = input.into();
        self.evals += 1;
        *self.probes.entry(probe.to_string()).or_insert(0) += 1;
        let h = hash(&format!("{probe}|{input}"));
        if self.distinct.insert(h) && (self.samples.len() < 4 || (self.samples.len() < 12 && *self.probes.get(probe).unwrap() == 1)) {
            let mut s = format!("{probe}: {input}"); s.truncate(300); self.samples.push(s);
        }
        input
    }
    pub fn fail(&mut self, key: &str, input: &str, what: impl Into<String>) {
        if self.fails.iter().filter(|f| f.0 == key).count() < 3 {
            let mut i = input.to_string(); if i.len() > 1500 { i.truncate(1500); }
            let mut w: String = what.into(); if w.len() > 600 { w.truncate(600); }
            println!("{}", serde_json::json!({"fail": {"key": key, "input": i, "what": w}}));
            self.fails.push((key.to_string(), i, w));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, input: &str, what: impl FnOnce() -> String) -> bool {
        if !ok { let w = what(); self.fail(key, input, w); }
        ok
    }
    pub fn close(&mut self, a: f64, b: f64, tol: f64, key: &str, input: &str) -> bool {
        let ok = near(a, b, tol);
        if !ok { self.fail(key, input, format!("got {a:e}, expected {b:e}")); }
        ok
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.rng.r#gen::<f64>() }
    pub fn u(&mut self, lo: usize, hi: usize) -> usize { self.rng.gen_range(lo..=hi) }
    pub fn b(&mut self, p: f64) -> bool { self.rng.r#gen::<f64>() < p }
    /// run code that may panic
    pub fn guard<T>(&mut self, key: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                // a point made of NaN, from LogEI being NaN for u < -37 (known finding)
                if m.contains("UndefinedOrder") && input.contains("criterion=LogEI") { self.fail(&format!("{}/logei-below-37", &key[..3]), input, format!("panicked: {m}")); }
                else { self.fail(&format!("{key}/panic"), input, format!("panicked: {m}")); }
                None
            }
        }
    }
    /// run code that may panic or never return
    pub fn guard_t<T: Send + 'static>(&mut self, key: &str, input: &str, secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
            let _ = tx.send(r);
        }).unwrap();
        match rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(Ok(v)) => Some(v),
            Ok(Err(m)) => { self.fail(&format!("{key}/panic"), input, format!("panicked: {m}")); None }
            Err(_) => { self.fail(&format!("{key}/hang"), input, format!("no answer after {secs} s")); None }
        }
    }
}

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    if a == b { return true; }
    if a.is_infinite() || b.is_infinite() { return false; }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

//! Property-based testing core: recorded choice sequences, integrated shrinking, replay files,
//! case classification and the evidence writer. Every case is a pure function of the code under
//! test, VERIF_SEED, the suite name and the case index.
use crate::sim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Source of choices for one case: random (and recorded) or replayed.
pub struct Src {
    rng: Option<[u64; 2]>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Src {
            rng: Some([a, b]),
            replay: vec![],
            rec: vec![],
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            rng: None,
            replay: choices,
            rec: vec![],
        }
    }
    fn next(&mut self) -> u64 {
        let r = self.rng.as_mut().unwrap();
        let [mut s1, s0] = *r;
        let out = s0.wrapping_add(s1);
        s1 ^= s1 << 23;
        *r = [s0, s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5)];
        out
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.rng.is_some() {
            ((self.next() as u128 * n as u128) >> 64) as u64
        } else {
            self.replay
                .get(self.rec.len())
                .copied()
                .unwrap_or(0)
                .min(n - 1)
        };
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi);
        lo.wrapping_add(self.below((hi.wrapping_sub(lo) as u64).wrapping_add(1)) as i64)
    }
    pub fn urange(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability p/100; false is the simplest choice
    pub fn chance(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())].clone()
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// magnitude-uniform in 0..=max
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
        (lo + self.below(hi - lo + 1)).min(max)
    }
    /// magnitude-uniform in lo..=hi, lo >= 1
    pub fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        let l = 63 - lo.leading_zeros() as u64;
        let h = 63 - hi.leading_zeros() as u64;
        let b = l + self.below(h - l + 1);
        let a = (1u64 << b).max(lo);
        let z = if b == 63 { u64::MAX } else { (2u64 << b) - 1 }.min(hi);
        a + self.below(z - a + 1)
    }
    /// a float in [lo, hi] on a grid of 10^6 steps
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * (self.below(1_000_001) as f64 / 1e6)
    }
    /// magnitude-uniform float in [lo, hi], lo > 0
    pub fn flog(&mut self, lo: f64, hi: f64) -> f64 {
        let t = self.below(1_000_001) as f64 / 1e6;
        (lo.ln() + (hi.ln() - lo.ln()) * t).exp()
    }
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Case {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub findings: Vec<&'static str>,
    pub trace: Vec<String>,
    pub want_trace: bool,
}
impl Case {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// A defect that is listed in known_findings.txt under this key is noted; any other one fails.
    pub fn finding(&mut self, key: &'static str, msg: &str) -> Result<(), String> {
        match known(key) {
            Some(_) => {
                self.findings.push(key);
                Ok(())
            }
            None => Err(msg.to_string()),
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace {
            let s = f();
            self.trace.push(s);
        }
    }
}

/// the line `known: property=<id> key=<key> <what fails>` of known_findings.txt
pub fn known(key: &str) -> Option<&'static str> {
    static TEXT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let t = TEXT.get_or_init(|| {
        std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default()
    });
    let k = format!(" key={key} ");
    t.lines().find(|l| l.starts_with("known: ") && l.contains(&k)).map(|l| &l[7..])
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Result<(), String>;

pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => {
        if !($c) {
            return Err(format!($($arg)+));
        }
    };
}

fn hash64(x: impl Hash) -> u64 {
    // FNV, stable across runs and platforms
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    x.hash(&mut h);
    h.finish()
}

fn run_once(f: CaseFn, src: &mut Src, case: &mut Case) -> Result<(), String> {
    match sim::catch(|| f(src, case)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn shrink(f: CaseFn, mut best: Vec<u64>, mut msg: String) -> (Vec<u64>, String) {
    let start = Instant::now();
    let limit = Duration::from_secs(60);
    let try_it = |cand: &Vec<u64>| -> Option<(Vec<u64>, String)> {
        let mut src = Src::replay(cand.clone());
        let mut case = Case::default();
        match run_once(f, &mut src, &mut case) {
            Err(m) => Some((src.rec, m)),
            Ok(()) => None,
        }
    };
    let less = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let mut improved = false;
        // delete blocks
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if start.elapsed() > limit {
                    return (best, msg);
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                match try_it(&c) {
                    Some((r, m)) if less(&r, &best) => {
                        best = r;
                        msg = m;
                        improved = true;
                    }
                    _ => i += size.max(1),
                }
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut opts = vec![];
            if v > 0 {
                opts.push(0);
                let mut d = v / 2;
                while d > 0 {
                    opts.push(v - d);
                    d /= 2;
                }
            }
            for o in opts {
                if start.elapsed() > limit {
                    return (best, msg);
                }
                let mut c = best.clone();
                c[i] = o;
                if let Some((r, m)) = try_it(&c) {
                    if less(&r, &best) {
                        best = r;
                        msg = m;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (best, msg);
        }
    }
}

pub fn verif_dir() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().into()
}

fn trace_of(f: CaseFn, choices: &[u64]) -> Vec<String> {
    let mut case = Case {
        want_trace: true,
        ..Case::default()
    };
    let _ = run_once(f, &mut Src::replay(choices.to_vec()), &mut case);
    case.trace
}

struct Agg {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    findings: BTreeMap<&'static str, u64>,
    samples: Vec<Vec<u64>>,
    fail: Option<(u64, Vec<u64>, String)>,
}

/// Runs a property; returns true if it held.
pub fn run(p: &Prop, tier: &str, seed: u64, cap: Duration, only: Option<&str>, scale: f64) -> bool {
    sim::init();
    let start = Instant::now();
    let mut suites_json = vec![];
    let mut samples = vec![];
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut violation = None;
    let mut capped = false;
    let mut found: BTreeMap<&'static str, u64> = BTreeMap::new();
    for s in &p.suites {
        if only.map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let n = if tier == "thorough" { s.thorough } else { s.quick };
        if n == 0 {
            continue;
        }
        let n = ((n as f64 * scale) as u64).max(1);
        let agg = Mutex::new(Agg {
            evaluations: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            findings: BTreeMap::new(),
            samples: vec![],
            fail: None,
        });
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let t0 = Instant::now();
        let threads = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .min(16);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                            break;
                        }
                        let lo = next.fetch_add(8, Ordering::Relaxed);
                        if lo >= n {
                            break;
                        }
                        for i in lo..(lo + 8).min(n) {
                            let mut src = Src::random(hash64((seed, p.id, s.name, i)));
                            let mut case = Case::default();
                            let r = run_once(s.f, &mut src, &mut case);
                            let mut a = agg.lock().unwrap();
                            a.evaluations += 1;
                            for l in case.labels {
                                *a.labels.entry(l).or_default() += 1;
                            }
                            for l in case.findings {
                                *a.findings.entry(l).or_default() += 1;
                            }
                            if case.nontrivial {
                                a.nontrivial += 1;
                                let fresh = a.distinct.insert(hash64(&src.rec));
                                if fresh && a.samples.len() < 2 && i < 64 {
                                    a.samples.push(src.rec.clone());
                                }
                            }
                            if let Err(m) = r {
                                if a.fail.as_ref().map(|f| f.0 > i).unwrap_or(true) {
                                    a.fail = Some((i, src.rec, m));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let a = agg.into_inner().unwrap();
        if a.evaluations < n && a.fail.is_none() {
            capped = true;
        }
        for (k, n) in &a.findings {
            *found.entry(k).or_default() += n;
        }
        evals += a.evaluations;
        distinct += a.distinct.len() as u64;
        for c in &a.samples {
            let mut t = trace_of(s.f, c);
            if t.is_empty() {
                t.push(format!("choices {:?}", c));
            }
            t.truncate(12);
            for x in t.iter_mut() {
                if x.len() > 300 {
                    let mut e = 300;
                    while !x.is_char_boundary(e) {
                        e -= 1;
                    }
                    x.truncate(e);
                }
            }
            samples.push(json!({"suite": s.name, "case": t}));
        }
        println!(
            "{} {}: {} cases, {} non-trivial, {} distinct, {:.1}s {:?}",
            p.id,
            s.name,
            a.evaluations,
            a.nontrivial,
            a.distinct.len(),
            t0.elapsed().as_secs_f64(),
            a.labels
        );
        suites_json.push(json!({
            "suite": s.name, "planned": n, "evaluations": a.evaluations,
            "nontrivial": a.nontrivial, "distinct_nontrivial": a.distinct.len(),
            "labels": a.labels, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if let Some((i, choices, msg)) = a.fail {
            println!("{} {}: case {} fails: {}", p.id, s.name, i, msg);
            let (c, m) = shrink(s.f, choices, msg);
            let dir = verif_dir().join("replays");
            std::fs::create_dir_all(&dir).unwrap();
            let path = dir.join(format!("{}-{}-{:016x}.json", p.id, s.name, hash64(&c)));
            let t = trace_of(s.f, &c);
            let v = json!({"property": p.id, "suite": s.name, "message": m, "choices": c, "trace": t,
                "replay": format!("{}/target/release/harness replay {}", verif_dir().display(), path.display())});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            println!("minimal: {m}");
            for l in t.iter().take(60) {
                println!("    {l}");
            }
            violation = Some(path);
            break;
        }
    }
    for k in found.keys() {
        println!("KNOWN-FINDING: {}", known(k).unwrap());
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule,
            "samples": samples, "suites": suites_json,
            "stopped_at_time_cap": capped, "known_findings_seen": found,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u64,
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    if let Some(path) = violation {
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return false;
    }
    true
}

pub fn replay(props: &[Prop], file: &str) -> bool {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"]).unwrap();
    let s = p.suites.iter().find(|s| s.name == v["suite"]).unwrap();
    let choices: Vec<u64> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap())
        .collect();
    let mut case = Case {
        want_trace: true,
        ..Case::default()
    };
    let r = run_once(s.f, &mut Src::replay(choices), &mut case);
    for l in &case.trace {
        println!("    {l}");
    }
    match r {
        Ok(()) => {
            println!("{}: holds on this case", p.id);
            true
        }
        Err(m) => {
            println!("{}: {}", p.id, m);
            println!("VIOLATION property={} replay={}", p.id, file);
            false
        }
    }
}

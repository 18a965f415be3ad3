//! Run context: seeded randomness, measured coverage, verdicts, evidence.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            *v = z ^ (z >> 31);
        }
        Rng(s)
    }
    pub fn derive(seed: u64, tag: &str, n: u64) -> Rng {
        Rng::new(hash_of(&(seed, tag, n)))
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            return a;
        }
        let w = b - a;
        if w == u64::MAX {
            self.next()
        } else {
            a + self.below(w + 1)
        }
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u64, b as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    // FNV-1a based, stable between runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut h = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

pub struct Violation {
    pub sig: String,
    pub detail: J,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub t0: Instant,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<J>>,
    viol: Mutex<Vec<Violation>>,
    /// signatures of the listed findings: told, but they do not end a run
    pub known: Vec<String>,
    dirs: AtomicU64,
    beat: AtomicU64,
}

impl Ctx {
    pub fn new(id: &str, seed: u64, thorough: bool, scratch: PathBuf) -> Ctx {
        Ctx {
            id: id.into(),
            seed,
            thorough,
            scratch,
            t0: Instant::now(),
            evals: AtomicU64::new(0),
            distinct: Default::default(),
            counters: Default::default(),
            samples: Default::default(),
            viol: Default::default(),
            known: vec![],
            dirs: AtomicU64::new(0),
            beat: AtomicU64::new(0),
        }
    }
    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn rng(&self, tag: &str, n: u64) -> Rng {
        Rng::derive(self.seed, tag, n)
    }
    /// One oracle verdict over one observed execution.
    pub fn eval<T: Hash>(&self, case: &T, nontrivial: bool) {
        self.beat();
        self.evals.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            self.distinct.lock().unwrap().insert(hash_of(case));
        }
    }
    /// Sign of life: the watchdog reports a run that shows none for minutes.
    pub fn beat(&self) {
        self.beat.fetch_add(1, Ordering::Relaxed);
    }
    pub fn beats(&self) -> u64 {
        self.beat.load(Ordering::Relaxed)
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(k.into()).or_insert(0);
        if n > *e {
            *e = n
        }
    }
    pub fn counter(&self, k: &str) -> u64 {
        *self.counters.lock().unwrap().get(k).unwrap_or(&0)
    }
    pub fn sample(&self, j: J) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(j)
        }
    }
    pub fn violation(&self, sig: &str, detail: J) {
        let mut v = self.viol.lock().unwrap();
        if v.iter().filter(|x| x.sig == sig).count() < 3 && v.len() < 60 {
            v.push(Violation { sig: sig.into(), detail });
        }
    }
    /// Enough violations were recorded: stop generating.
    pub fn stop(&self) -> bool {
        self.unlisted() >= 12
    }
    pub fn has_violation(&self) -> bool {
        self.unlisted() > 0
    }
    fn unlisted(&self) -> usize {
        self.viol.lock().unwrap().iter().filter(|v| !self.known.contains(&v.sig)).count()
    }
    pub fn dir(&self, name: &str) -> PathBuf {
        let n = self.dirs.fetch_add(1, Ordering::Relaxed);
        let d = self.scratch.join(format!("{}-{}", n, name));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    }
    pub fn take_violations(&self) -> Vec<Violation> {
        std::mem::take(&mut *self.viol.lock().unwrap())
    }
    /// What a child process observed, for `absorb`.
    pub fn report(&self) -> J {
        json!({
            "evals": self.evals.load(Ordering::Relaxed),
            "distinct": self.distinct.lock().unwrap().iter().cloned().collect::<Vec<u64>>(),
            "counters": *self.counters.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "viol": self.viol.lock().unwrap().iter().map(|v| json!([v.sig, v.detail])).collect::<Vec<_>>(),
        })
    }
    pub fn absorb(&self, j: &J) {
        self.beat();
        self.evals.fetch_add(j["evals"].as_u64().unwrap_or(0), Ordering::Relaxed);
        for h in j["distinct"].as_array().into_iter().flatten() {
            self.distinct.lock().unwrap().insert(h.as_u64().unwrap_or(0));
        }
        for (k, v) in j["counters"].as_object().into_iter().flatten() {
            if k.starts_with("max_") {
                self.max(k, v.as_u64().unwrap_or(0))
            } else {
                self.count(k, v.as_u64().unwrap_or(0))
            }
        }
        for s in j["samples"].as_array().into_iter().flatten() {
            self.sample(s.clone())
        }
        for v in j["viol"].as_array().into_iter().flatten() {
            self.violation(v[0].as_str().unwrap_or("?"), v[1].clone())
        }
    }
    pub fn evidence(&self, level: &str, rule: &str, assumptions: &[&str], nviol: usize, known: &[String]) -> J {
        let mut cov = json!({
            "evaluations": self.evals.load(Ordering::Relaxed),
            "distinct_nontrivial": self.distinct.lock().unwrap().len(),
            "rule": rule,
            "samples": *self.samples.lock().unwrap(),
        });
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov["observed_".to_string() + k] = json!(v);
        }
        if !known.is_empty() {
            cov["known_findings_seen"] = json!(known);
        }
        json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": nviol,
        })
    }
    pub fn evaluations(&self) -> u64 {
        self.evals.load(Ordering::Relaxed)
    }
    pub fn distinct(&self) -> usize {
        self.distinct.lock().unwrap().len()
    }
}

thread_local! {
    static QUIET: RefCell<Option<String>> = const { RefCell::new(None) };
}
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Panics are observations, not noise: keep them, print nothing.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{} at {}", msg, loc);
        if std::env::var_os("MON_PANIC_TRACE").is_some() {
            eprintln!("PANIC {}\n{}", m, std::backtrace::Backtrace::force_capture());
        }
        let _ = QUIET.try_with(|q| *q.borrow_mut() = Some(m.clone()));
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 200 {
                p.push(m);
            }
        }
    }));
}
pub fn panics_seen() -> Vec<String> {
    PANICS.lock().map(|p| p.clone()).unwrap_or_default()
}

/// Runs `f`; a panic comes back as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(QUIET.with(|q| q.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

pub fn sleep_ms(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms))
}

/// Runs the closures of one batch on up to `width` threads.
pub fn parallel<F>(width: usize, n: u64, f: F)
where
    F: Fn(u64) + Sync,
{
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..width.max(1).min(n.max(1) as usize) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                f(i)
            });
        }
    });
}

pub fn rm_rf(p: &Path) {
    let _ = std::fs::remove_dir_all(p);
}

pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

//! Run context: case selection, counters, violation reporting, known findings, evidence.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;

pub type Rng = ChaCha8Rng;

pub fn verif_root() -> std::path::PathBuf {
    std::env::var("RTM_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

struct Inner {
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    assumptions: Vec<String>,
    inconclusive: Vec<String>,
    rule: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    only: Option<String>,
    evals: AtomicU64,
    known: Vec<(String, String)>,
    inner: Mutex<Inner>,
    running: Mutex<BTreeMap<String, String>>,
    pub scratch: std::path::PathBuf,
}

fn max_violations() -> usize {
    static M: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *M.get_or_init(|| std::env::var("RTM_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(5))
}
static TICK: AtomicU64 = AtomicU64::new(0);
static QUIET: AtomicBool = AtomicBool::new(true);

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Panic messages seen on any thread since the last call.
pub fn drain_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

static ENGINE_PANICS: AtomicU64 = AtomicU64::new(0);
/// How often the Turso engine itself (an alpha) failed one of its own assertions.
pub fn engine_panics() -> u64 {
    ENGINE_PANICS.load(Ordering::SeqCst)
}
pub fn install_panic_hook() {
    let dflt = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let text = format!("{loc}: {msg}");
        if loc.contains("turso_core") {
            ENGINE_PANICS.fetch_add(1, Ordering::SeqCst);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 1000 {
                p.push(text);
            }
        }
        if !QUIET.load(Ordering::Relaxed) {
            dflt(info);
        }
    }));
}

/// Run `f`, turning a panic into `Err(location: message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

impl Ctx {
    pub fn new(id: &'static str, quick_secs: u64, thorough_secs: u64) -> Self {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        // for exploring by hand: RTM_SECS=60
        let hand = std::env::var("RTM_SECS").ok().and_then(|s| s.parse().ok());
        let (quick_secs, thorough_secs) = hand.map(|h| (h, h)).unwrap_or((quick_secs, thorough_secs));
        let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut only = None;
        let args: Vec<String> = std::env::args().collect();
        if let Some(p) = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1)) {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("replay json");
            seed = v["seed"].as_u64().unwrap_or(seed);
            only = v["case"].as_str().map(|s| s.to_string());
            QUIET.store(false, Ordering::Relaxed);
        }
        if let Some(c) = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1)) {
            only = Some(c.clone());
            QUIET.store(false, Ordering::Relaxed);
        }
        install_panic_hook();
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(verif_root().join("known_findings.txt")) {
            for l in text.lines() {
                if let Some(rest) = l.strip_prefix("KNOWN-FINDING: ") {
                    let mut prop = None;
                    let mut sig = None;
                    let mut parts = rest.splitn(3, ' ');
                    if let Some(p) = parts.next() {
                        prop = p.strip_prefix("property=");
                    }
                    if let Some(s) = parts.next() {
                        sig = s.strip_prefix("sig=");
                    }
                    if let (Some(p), Some(s)) = (prop, sig) {
                        if p == id {
                            known.push((s.to_string(), parts.next().unwrap_or("").to_string()));
                        }
                    }
                }
            }
        }
        let base = std::env::var("RTM_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into());
        let scratch = std::path::PathBuf::from(base).join(format!("rtm-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch");
        Ctx {
            id,
            thorough,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(if thorough { thorough_secs } else { quick_secs }),
            only,
            evals: AtomicU64::new(0),
            known,
            inner: Mutex::new(Inner {
                distinct: HashSet::new(),
                samples: Vec::new(),
                counters: BTreeMap::new(),
                violations: Vec::new(),
                known_hit: BTreeMap::new(),
                assumptions: Vec::new(),
                inconclusive: Vec::new(),
                rule: String::new(),
            }),
            running: Mutex::new(BTreeMap::new()),
            scratch,
        }
    }
    /// Run generated cases `prefix/0`, `prefix/1`, ... while there is budget (only the replayed one when
    /// replaying). `min` cases are run even when the budget is used up.
    pub fn cases(&self, prefix: &str, frac: f64, min: usize, max: usize, mut f: impl FnMut(&str, &mut Rng)) {
        if let Some(o) = &self.only {
            if o == prefix || prefix.starts_with(&format!("{o}/")) {
                // fall through: replay the whole group
            } else {
                if let Some(rest) = o.strip_prefix(&format!("{prefix}/")) {
                    let idx = rest.split('/').next().unwrap();
                    let case = format!("{prefix}/{idx}");
                    let mut rng = self.rng(&case);
                    self.begin(prefix, &case);
                    f(&case, &mut rng);
                    self.end(prefix);
                }
                return;
            }
        }
        let mut i = 0;
        while i < max && (self.go_on_until(frac) || (i < min && self.go_on_until(frac + 3.0))) {
            let case = format!("{prefix}/{i}");
            let mut rng = self.rng(&case);
            self.begin(prefix, &case);
            f(&case, &mut rng);
            i += 1;
        }
        self.end(prefix);
    }
    pub fn begin(&self, who: &str, case: &str) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.running.lock().unwrap().insert(who.to_string(), case.to_string());
    }
    pub fn end(&self, who: &str) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.running.lock().unwrap().remove(who);
    }
    /// Run `f` once per item, each on its own thread.
    pub fn parallel<L: Copy + Send + Sync + std::fmt::Debug>(&self, items: &[L], f: impl Fn(L) + Sync) {
        std::thread::scope(|s| {
            let hs: Vec<_> = items.iter().map(|&l| (l, std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, { let f = &f; move || catch(|| f(l)) }).unwrap())).collect();
            for (l, h) in hs {
                match h.join() {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => self.inconclusive(format!("harness thread {l:?} panicked: {e}")),
                    Err(_) => self.inconclusive(format!("harness thread {l:?} panicked")),
                }
            }
        });
    }
    pub fn rule(&self, r: &str) {
        self.inner.lock().unwrap().rule = r.to_string();
    }
    pub fn assume(&self, a: &str) {
        self.inner.lock().unwrap().assumptions.push(a.to_string());
    }
    pub fn rng(&self, case: &str) -> Rng {
        Rng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_of(case) ^ hash_of(self.id))
    }
    /// Whether to run this case (false when replaying another one).
    pub fn want(&self, case: &str) -> bool {
        TICK.fetch_add(1, Ordering::Relaxed);
        match &self.only {
            None => true,
            Some(o) => o == case || o.starts_with(&format!("{case}/")) || case.starts_with(&format!("{o}/")),
        }
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    /// True while there is time left and not too many violations were found.
    pub fn go_on(&self) -> bool {
        self.start.elapsed() < self.budget && self.inner.lock().unwrap().violations.len() < max_violations()
    }
    /// Time left for a share `frac` of the budget counted from the start of the run.
    pub fn go_on_until(&self, frac: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * frac
            && self.inner.lock().unwrap().violations.len() < max_violations()
    }
    pub fn tick(&self) {
        TICK.fetch_add(1, Ordering::Relaxed);
    }
    pub fn eval(&self, n: u64) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    pub fn evals(&self) -> u64 {
        self.evals.load(Ordering::Relaxed)
    }
    /// Record one distinct non-trivial case.
    pub fn nontrivial<T: Hash + ?Sized>(&self, t: &T) {
        self.inner.lock().unwrap().distinct.insert(hash_of(t));
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 6 {
            let mut s: String = s.into();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            i.samples.push(s);
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut i = self.inner.lock().unwrap();
        let e = i.counters.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn get(&self, name: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }
    /// Something went wrong with the check itself.
    pub fn inconclusive(&self, msg: impl Into<String>) {
        let m: String = msg.into();
        println!("INCONCLUSIVE {}: {m}", self.id);
        self.inner.lock().unwrap().inconclusive.push(m);
    }
    /// The property is broken. `sig` identifies the kind of failure for the known-findings file.
    pub fn violation(&self, sig: &str, case: &str, msg: impl Into<String>) {
        let msg: String = msg.into();
        let mut i = self.inner.lock().unwrap();
        if let Some((s, d)) = self.known.iter().find(|(s, _)| s == sig) {
            if !i.known_hit.contains_key(s) {
                println!("KNOWN-FINDING: property={} sig={} {}", self.id, s, d);
            }
            i.known_hit.insert(s.clone(), msg);
            return;
        }
        let n = i.violations.len();
        if n >= max_violations() {
            return;
        }
        let dir = verif_root().join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, n));
        let body = serde_json::json!({"property": self.id, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
            "case": case, "signature": sig, "message": msg});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", self.id, path.display());
        println!("  signature {sig}\n  case {case}\n  {}", msg.replace('\n', "\n  "));
        i.violations.push((sig.to_string(), msg));
    }
    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    /// Start a watchdog: if nothing ticks for `secs`, report. `hang_sig`: Some = a hang breaks the property.
    pub fn watchdog(self: &std::sync::Arc<Self>, secs: u64, hang_sig: Option<&'static str>) {
        let me = self.clone();
        std::thread::spawn(move || {
            let mut last = TICK.load(Ordering::Relaxed);
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let t = TICK.load(Ordering::Relaxed);
                if t != last {
                    last = t;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(secs) {
                    let case = me.running.lock().map(|c| c.values().cloned().collect::<Vec<_>>().join(",")).unwrap_or_default();
                    match hang_sig {
                        Some(sig) => {
                            me.violation(sig, &case, format!("no operation finished for {secs} s in case {case}"));
                            let code = me.finish_ref();
                            std::process::exit(code);
                        }
                        None => {
                            println!("INCONCLUSIVE {}: stalled for {secs} s in case {case}", me.id);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
    }
    pub fn finish_ref(&self) -> i32 {
        let i = self.inner.lock().unwrap();
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), self.evals.load(Ordering::Relaxed).into());
        cov.insert("distinct_nontrivial".into(), (i.distinct.len() as u64).into());
        cov.insert("rule".into(), i.rule.clone().into());
        cov.insert("samples".into(), i.samples.clone().into());
        cov.insert("observed".into(), serde_json::to_value(&i.counters).unwrap());
        if !i.known_hit.is_empty() {
            cov.insert("known_findings_reproduced".into(), serde_json::to_value(i.known_hit.keys().collect::<Vec<_>>()).unwrap());
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": i.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": i.violations.len(),
        });
        let dir = verif_root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()) {
                println!("cannot write evidence: {e}");
            }
        }
        let _ = std::fs::remove_dir_all(&self.scratch);
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {} known findings, {:.1} s",
            self.id,
            self.evals.load(Ordering::Relaxed),
            i.distinct.len(),
            i.violations.len(),
            i.known_hit.len(),
            self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &i.counters {
            println!("  {k} = {v}");
        }
        if !i.violations.is_empty() {
            1
        } else if !i.inconclusive.is_empty() || (self.evals.load(Ordering::Relaxed) == 0) {
            3
        } else {
            0
        }
    }
    pub fn finish(&self) -> ! {
        let code = self.finish_ref();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        // exit without running destructors of database engines
        std::process::exit(code)
    }
}

//! Runs a check, collects what it covered, prints the verdict and writes the
//! evidence file.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

static STATES: AtomicU64 = AtomicU64::new(0);
static TRANSITIONS: AtomicU64 = AtomicU64::new(0);
static VALIDATED: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);

/// Distinct model/implementation states (or input tuples) visited.
pub fn states(n: u64) {
    STATES.fetch_add(n, Relaxed);
}
/// Operations / solver steps / schedule steps executed.
pub fn transitions(n: u64) {
    TRANSITIONS.fetch_add(n, Relaxed);
}
/// Executions of the real code whose observable result was compared with the model.
pub fn validated(n: u64) {
    VALIDATED.fetch_add(n, Relaxed);
}
/// Set once enough violations were collected: explorations may stop early.
pub fn stopping() -> bool {
    STOP.load(Relaxed)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs `f`; a panic becomes an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| {
            let s = p.borrow().clone();
            if s.is_empty() {
                "panic in a worker thread".into()
            } else {
                s
            }
        })),
    }
}

/// Like `guard` for functions that already report errors.
pub fn guard2<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    guard(f).and_then(|r| r)
}

/// Maps `f` over `items` on all cores, keeping order. Panics become errors.
pub fn par<T: Send + Sync, R: Send>(
    items: &[T],
    f: impl Fn(&T) -> Result<R, String> + Sync,
) -> Vec<Result<R, String>> {
    let n = items.len();
    let next = AtomicU64::new(0);
    let mut out: Vec<Option<Result<R, String>>> = (0..n).map(|_| None).collect();
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1));
    let results: Vec<Vec<(usize, Result<R, String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut v = vec![];
                        loop {
                            let i = next.fetch_add(1, Relaxed) as usize;
                            if i >= n {
                                return v;
                            }
                            v.push((i, guard2(|| f(&items[i]))));
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for v in results {
        for (i, r) in v {
            out[i] = Some(r);
        }
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    level: &'static str,
    start: Instant,
    samples: Vec<String>,
    rule: String,
    bounds: Vec<String>,
    assumptions: Vec<String>,
    known: BTreeMap<String, String>,
    known_hit: BTreeSet<String>,
    violations: Vec<(String, String)>,
    cases: BTreeMap<String, (u64, u64, f64)>,
    only: Option<String>,
    distinct: u64,
}

impl Ctx {
    pub fn new(id: &'static str, level: &'static str) -> Ctx {
        install_hook();
        let root = root();
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix(&format!("known: property={} key=", id)) {
                    let (k, d) = rest.split_once(' ').unwrap_or((rest, ""));
                    known.insert(k.to_string(), d.to_string());
                }
            }
        }
        Ctx {
            id,
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level,
            start: Instant::now(),
            samples: vec![],
            rule: String::new(),
            bounds: vec![],
            assumptions: vec![],
            known,
            known_hit: BTreeSet::new(),
            violations: vec![],
            cases: BTreeMap::new(),
            only: std::env::var("MC_ONLY").ok(),
            distinct: 0,
        }
    }

    /// `quick` in the quick tier, `thorough` in the thorough one.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn rule(&mut self, s: &str) {
        self.rule = s.into();
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 12 {
            self.samples.push(s.into());
        }
    }

    /// Reports a failure. `key` identifies the failing site/input/history.
    pub fn fail(&mut self, key: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if let Some(d) = self.known.get(key) {
            if self.known_hit.insert(key.to_string()) {
                println!("KNOWN-FINDING: property={} {} {}", self.id, key, d);
            }
            return;
        }
        if self.violations.len() < 20 && !self.violations.iter().any(|v| v.0 == key) {
            self.violations.push((key.to_string(), msg));
        }
        if self.violations.len() >= 3 {
            STOP.store(true, Relaxed);
        }
    }

    /// One named exploration. Errors and panics are violations with key `name`.
    pub fn case(&mut self, name: &str, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        if stopping() {
            return;
        }
        let (s0, t0) = (STATES.load(Relaxed), TRANSITIONS.load(Relaxed));
        let t = Instant::now();
        if let Err(e) = guard2(|| f(self)) {
            self.fail(name, e);
        }
        let (s1, t1) = (STATES.load(Relaxed), TRANSITIONS.load(Relaxed));
        let dt = t.elapsed().as_secs_f64();
        eprintln!("[{}] {:<44} states {:>10} transitions {:>12} {:.2}s", self.id, name, s1 - s0, t1 - t0, dt);
        self.distinct += s1 - s0;
        self.cases.insert(name.to_string(), (s1 - s0, t1 - t0, dt));
    }

    pub fn finish(self) -> ! {
        let root = root();
        let wall = self.start.elapsed().as_secs_f64();
        let dir = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(format!("{}/replay", dir));
        let st = STATES.load(Relaxed);
        let tr = TRANSITIONS.load(Relaxed);
        let va = VALIDATED.load(Relaxed);
        if self.only.is_none() && (st == 0 || tr == 0) && self.violations.is_empty() {
            eprintln!("{}: nothing was explored", self.id);
            std::process::exit(3);
        }
        let mut cov = String::new();
        cov += &format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ", st, tr, va);
        if self.level != "model_checking" {
            cov += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, ", va, self.distinct);
        }
        cov += &format!("\"rule\": {}, ", js(&self.rule));
        cov += &format!("\"bounds\": [{}], ", self.bounds.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        cov += &format!(
            "\"cases\": {{{}}}, ",
            self.cases
                .iter()
                .map(|(k, v)| format!("{}: {{\"states\": {}, \"transitions\": {}, \"wall_s\": {:.3}}}", js(k), v.0, v.1, v.2))
                .collect::<Vec<_>>()
                .join(", ")
        );
        cov += &format!("\"known_findings_reproduced\": [{}], ", self.known_hit.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        cov += &format!("\"exhaustive\": {}, ", self.violations.is_empty() && self.only.is_none());
        cov += &format!("\"samples\": [{}]", self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let json = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"violations\": {}, \"wall_s\": {:.3}\n}}\n",
            js(self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(self.level),
            cov,
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.violations.len(),
            wall
        );
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.id), json) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(3);
        }
        if self.violations.is_empty() {
            println!("OK property={} states={} transitions={} validated={} wall={:.1}s", self.id, st, tr, va, wall);
            std::process::exit(0);
        }
        for (i, (k, m)) in self.violations.iter().enumerate() {
            let path = format!("{}/replay/{}-{}.txt", dir, self.id, i);
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\ncase: {}\nfailure: {}\nreplay: cd /verif && MC_ONLY='{}' ./check {} {}\n",
                    self.id,
                    k,
                    m,
                    k.split('#').next().unwrap(),
                    self.id,
                    if self.thorough { "thorough" } else { "quick" }
                ),
            );
            eprintln!("{}: {}: {}", self.id, k, m);
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        std::process::exit(1);
    }
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// err!("..") builds an Err(String).
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

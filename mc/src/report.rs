//! Verdict lines, evidence files, known findings and replay files.
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

/// Collects what one run of one check did.
pub struct Report {
    pub property: String,
    start: Instant,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub extra: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    pub bounds: String,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    violation: Option<String>,
}

impl Report {
    pub fn new(property: &str) -> Report {
        let known = load_known(property);
        Report {
            property: property.to_string(),
            start: Instant::now(),
            states: 0,
            transitions: 0,
            validated: 0,
            extra: BTreeMap::new(),
            notes: vec![],
            samples: vec![],
            bounds: String::new(),
            known,
            known_hit: BTreeMap::new(),
            violation: None,
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn count(&mut self, key: &str, n: u64) {
        *self.extra.entry(key.to_string()).or_insert(0) += n;
    }

    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(s);
        }
    }

    /// The keys of the findings listed for this property.
    pub fn known_keys(&self) -> Vec<String> {
        self.known.iter().map(|x| x.0.clone()).collect()
    }

    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|x| x.0 == key)
    }

    /// Reports a failure identified by `key`: a listed finding is noted, anything else is a violation.
    pub fn fail(&mut self, key: &str, detail: &str) {
        if self.is_known(key) {
            *self.known_hit.entry(key.to_string()).or_insert(0) += 1;
        } else if self.violation.is_none() {
            self.violation = Some(format!("key: {}\n{}", key, detail));
        }
    }

    pub fn has_violation(&self) -> bool {
        self.violation.is_some()
    }

    /// Writes evidence, prints the verdict and gives the exit code.
    pub fn finish(mut self) -> i32 {
        let tier = if thorough() { "thorough" } else { "quick" };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        if self.states == 0 && self.violation.is_none() {
            self.violation = Some("the exploration visited no state at all".to_string());
        }
        let mut cov = String::new();
        cov.push_str(&format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": true",
                              self.states, self.transitions, self.validated));
        cov.push_str(&format!(", \"bounds\": \"{}\"", esc(&self.bounds)));
        for (k, v) in &self.extra {
            cov.push_str(&format!(", \"{}\": {}", esc(k), v));
        }
        let samples: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        cov.push_str(&format!(", \"samples\": [{}]", samples.join(", ")));
        if !self.notes.is_empty() {
            let notes: Vec<String> = self.notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            cov.push_str(&format!(", \"notes\": [{}]", notes.join(", ")));
        }
        let ev = format!("{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"wall_s\": {:.3}}}\n",
                         self.property, tier, seed, cov, self.elapsed());
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if let Ok(mut f) = std::fs::File::create(format!("{}/{}.json", dir, self.property)) {
            let _ = f.write_all(ev.as_bytes());
        }
        for (k, n) in &self.known_hit {
            let what = self.known.iter().find(|x| &x.0 == k).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {} [{} occurrence(s) of {}]", self.property, what, n, k);
        }
        println!("{} [{}]: {} states, {} transitions, {} validated, {:.1}s", self.property, tier, self.states, self.transitions, self.validated, self.elapsed());
        for (k, v) in &self.extra {
            println!("   {} = {}", k, v);
        }
        match self.violation {
            None => 0,
            Some(v) => {
                let rdir = format!("{}/replay", dir);
                let _ = std::fs::create_dir_all(&rdir);
                let path = format!("{}/{}.txt", rdir, self.property);
                if let Ok(mut f) = std::fs::File::create(&path) {
                    let _ = f.write_all(format!("property: {}\ntier: {}\n{}\n", self.property, tier, v).as_bytes());
                }
                println!("{}", v);
                println!("VIOLATION property={} replay={}", self.property, path);
                1
            }
        }
    }
}

/// known_findings.txt lines: `finding: property=<id> key=<key> <text>` ; `fixed:` lines suppress nothing.
fn load_known(property: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let k = it.next().unwrap_or("");
                let t = it.next().unwrap_or("");
                if p == format!("property={}", property) {
                    if let Some(k) = k.strip_prefix("key=") {
                        out.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    out
}

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Silences panics of the code under test and keeps their message.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", msg, loc);
        }
    }));
}

/// Runs code under test; Err carries the panic message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

fn hang(property: &str, item: u64, limit: u64) -> ! {
    let rdir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&rdir);
    let path = format!("{}/{}.txt", rdir, property);
    let _ = std::fs::write(&path, format!("property: {}\nitem {} did not terminate within {} s\n", property, item, limit));
    crate::cli::speak_again();
    println!("item {} did not terminate within {} s", item, limit);
    println!("VIOLATION property={} replay={}", property, path);
    std::process::exit(1)
}

/// One failure found by a parallel sweep.
#[derive(Clone, Debug)]
pub struct Failure {
    pub key: String,
    pub detail: String,
}

/// Counters of one sweep.
#[derive(Default, Clone, Debug)]
pub struct Tally {
    pub samples: Vec<String>,
    pub items: u64,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub extra: BTreeMap<String, u64>,
}

impl Tally {
    pub fn add(&mut self, o: &Tally) {
        self.items += o.items;
        self.samples.extend(o.samples.iter().cloned());
        self.states += o.states;
        self.transitions += o.transitions;
        self.validated += o.validated;
        for (k, v) in &o.extra {
            *self.extra.entry(k.clone()).or_insert(0) += v;
        }
    }
    /// keeps a few of the explored cases, written out
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
    pub fn bump(&mut self, k: &str) {
        self.bump_by(k, 1);
    }
    pub fn bump_by(&mut self, k: &str, n: u64) {
        if let Some(x) = self.extra.get_mut(k) {
            *x += n;
        } else {
            self.extra.insert(k.to_string(), n);
        }
    }
}

impl Report {
    pub fn absorb(&mut self, t: &Tally) {
        for s in &t.samples {
            self.sample(s.clone());
        }
        self.states += t.states;
        self.transitions += t.transitions;
        self.validated += t.validated;
        for (k, v) in &t.extra {
            *self.extra.entry(k.clone()).or_insert(0) += v;
        }
    }

    /// Exhaustive parallel sweep over `0..n`; each worker has its own state. Failures are collected
    /// (at most 64 distinct keys, smallest index kept) and passed to `fail` in index order.
    pub fn sweep<W, F, M>(&mut self, n: u64, make: M, f: F)
    where
        W: 'static,
        M: Fn() -> W + Sync,
        F: Fn(u64, &mut W, &mut Tally) -> Result<(), Failure> + Sync,
    {
        use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
        let property = self.property.clone();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let known: Vec<String> = self.known_keys();
        let fails: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
        let counts: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let total: Mutex<Tally> = Mutex::new(Tally::default());
        let threads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let busy: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
        let t0 = Instant::now();
        let done = AtomicU64::new(0);
        let limit: u64 = 120;
        let stride: u64 = std::env::var("MC_STRIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let chunk = ((n / (threads as u64 * 64)).max(1)).min(4096);
        std::thread::scope(|s| {
            // an item that does not come back is a violation too: no explored execution may hang
            s.spawn(|| {
                while done.load(Ordering::Relaxed) < threads as u64 {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    let now = t0.elapsed().as_secs() + 1;
                    for b in &busy {
                        let st = b.1.load(Ordering::Relaxed);
                        if st != 0 && now > st + limit {
                            hang(&property, b.0.load(Ordering::Relaxed), limit);
                        }
                    }
                }
            });
            for th in 0..threads {
                let busy = &busy;
                let (next, stop, known, fails, counts, total, done, make, f, t0) = (&next, &stop, &known, &fails, &counts, &total, &done, &make, &f, &t0);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = make();
                        let mut tally = Tally::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= n {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                // (to estimate durations only)
                                if stride > 1 && (i / 7) % stride != 0 {
                                    continue;
                                }
                                busy[th].0.store(i, Ordering::Relaxed);
                                busy[th].1.store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                                let r = match guarded(|| f(i, &mut w, &mut tally)) {
                                    Ok(r) => r,
                                    Err(p) => {
                                        w = make();
                                        Err(Failure { key: "panic".to_string(), detail: format!("item {}: unexpected panic: {}", i, p) })
                                    }
                                };
                                if let Err(e) = r {
                                    *counts.lock().unwrap().entry(e.key.clone()).or_insert(0) += 1;
                                    let mut g = fails.lock().unwrap();
                                    let len = g.len();
                                    match g.get_mut(&e.key) {
                                        Some(x) => {
                                            if i < x.0 {
                                                *x = (i, e.detail);
                                            }
                                        }
                                        None => {
                                            if len < 64 {
                                                g.insert(e.key.clone(), (i, e.detail));
                                            }
                                        }
                                    }
                                    if !known.contains(&e.key) {
                                        // finish the current chunks, start no new one
                                        if std::env::var("MC_ALL").is_err() {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                            }
                        }
                        busy[th].1.store(0, Ordering::Relaxed);
                        done.fetch_add(1, Ordering::Relaxed);
                        total.lock().unwrap().add(&tally);
                    })
                    .unwrap();
            }
        });
        let t = total.into_inner().unwrap();
        self.absorb(&t);
        let counts = counts.into_inner().unwrap();
        let mut v: Vec<(String, (u64, String))> = fails.into_inner().unwrap().into_iter().collect();
        v.sort_by_key(|x| x.1 .0);
        if std::env::var("MC_ALL").is_ok() {
            for (k, (i, d)) in &v {
                println!("MC_ALL {} x{} first at {}: {}", k, counts[k], i, d);
            }
        }
        for (k, (i, d)) in v {
            let n = counts.get(&k).cloned().unwrap_or(1);
            self.fail(&k, &format!("item index: {}\n{}", i, d));
            if n > 1 {
                if let Some(x) = self.known_hit_mut(&k) {
                    *x += n - 1;
                }
            }
        }
    }

    fn known_hit_mut(&mut self, k: &str) -> Option<&mut u64> {
        self.known_hit.get_mut(k)
    }
}

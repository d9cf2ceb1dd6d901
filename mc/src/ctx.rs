//! Check context: counters, evidence, violations, known findings, panic capture, parallel driver, watchdog.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub replay: Value,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub counters: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<Value>>,
    pub notes: Mutex<Map<String, Value>>,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Vec<(String, String)>,
    pub known_hits: Mutex<BTreeMap<String, u64>>,
    pub stop: AtomicBool,
    pub truncated: AtomicBool,
    pub deadline_s: u64,
    pub replaying: bool,
    pub verif: String,
    pub assumptions: Mutex<Vec<String>>,
    pub scopes: Mutex<Vec<Value>>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_GUARD: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = IN_GUARD.with(|g| *g.borrow() > 0);
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, m)));
        if !guarded {
            default(info)
        }
    }));
}

/// Runs code of the implementation under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_GUARD.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Like guard, for fallible calls: Ok(value) | Err("error: .." | "panic ..").
pub fn guard_r<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    match guard(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {:#}", e)),
        Err(p) => Err(p),
    }
}

pub fn is_panic(e: &str) -> bool {
    e.starts_with("panic")
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, verif: &str, deadline_s: u64) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
            for l in s.lines() {
                // "known: property=<id> sig=<sig> <description>"
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(2, ' ');
                    if it.next() == Some(prop) {
                        if let Some(r) = it.next().and_then(|r| r.strip_prefix("sig=")) {
                            let mut it = r.splitn(2, ' ');
                            let sig = it.next().unwrap_or("").to_string();
                            known.push((sig, it.next().unwrap_or("").to_string()));
                        }
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            t0: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            counters: Default::default(),
            samples: Default::default(),
            notes: Default::default(),
            violations: Default::default(),
            known,
            known_hits: Default::default(),
            stop: false.into(),
            truncated: false.into(),
            deadline_s,
            replaying: false,
            verif: verif.into(),
            assumptions: Default::default(),
            scopes: Default::default(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(SeqCst) {
            return true;
        }
        if self.t0.elapsed().as_secs() > self.deadline_s {
            self.truncated.store(true, SeqCst);
            return true;
        }
        false
    }
    pub fn count(&self, name: &str, n: u64) {
        if n > 0 {
            *self.counters.lock().unwrap().entry(name.to_string()).or_default() += n;
        }
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, SeqCst);
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, SeqCst);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, SeqCst);
    }
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 4 {
            s.push(f());
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.notes.lock().unwrap().insert(k.into(), v);
    }
    pub fn scope(&self, v: Value) {
        self.scopes.lock().unwrap().push(v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// Reports a violation. `sig` identifies the failing thing precisely enough for known_findings.txt.
    pub fn fail(&self, sig: &str, msg: String, replay: Value) {
        if !self.replaying && self.known.iter().any(|(s, _)| s == sig) {
            *self.known_hits.lock().unwrap().entry(sig.into()).or_default() += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            v.push(Violation { sig: sig.into(), msg, replay });
        }
        self.stop.store(true, SeqCst);
    }
    pub fn finish(&self) -> i32 {
        let wall = self.t0.elapsed().as_secs_f64();
        let vs = self.violations.lock().unwrap();
        let known_hits = self.known_hits.lock().unwrap();
        let mut cov = Map::new();
        cov.insert("states".into(), json!(self.states.load(SeqCst)));
        cov.insert("transitions".into(), json!(self.transitions.load(SeqCst)));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(SeqCst)));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert(
            "exhaustive".into(),
            json!(!self.truncated.load(SeqCst) && !self.stop.load(SeqCst)),
        );
        cov.insert("scopes".into(), json!(*self.scopes.lock().unwrap()));
        cov.insert("outcomes".into(), json!(*self.counters.lock().unwrap()));
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        cov.insert(
            "known_findings_hit".into(),
            json!(known_hits.iter().map(|(k, n)| json!({"sig":k,"count":n})).collect::<Vec<_>>()),
        );
        let ev = json!({
            "property": self.prop,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": (wall*1000.0).round()/1000.0,
            "violations": vs.len(),
        });
        if !self.replaying {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
            std::fs::write(
                format!("{}/evidence/{}.json", self.verif, self.prop),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        println!(
            "{} {:?}: states={} transitions={} traces={} exhaustive={} wall={:.1}s",
            self.prop,
            self.tier,
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.traces.load(SeqCst),
            !self.truncated.load(SeqCst),
            wall
        );
        for (k, n) in self.counters.lock().unwrap().iter() {
            println!("  {} = {}", k, n);
        }
        for (sig, n) in known_hits.iter() {
            let d = self.known.iter().find(|(s, _)| s == sig).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {} [sig={} hits={}]", self.prop, d, sig, n);
        }
        if vs.is_empty() {
            return 0;
        }
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in vs.iter().enumerate() {
            let path = format!("{}/{}-{}.json", dir, self.prop, i);
            if !self.replaying {
                let doc = json!({"property": self.prop, "sig": v.sig, "msg": v.msg, "case": v.replay});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            }
            println!("  sig={} {}", v.sig, v.msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        1
    }
}

// ---------------------------------------------------------------- parallel driver with hang watchdog
pub static HANG_S: AtomicU64 = AtomicU64::new(150);
pub fn workers() -> usize {
    if std::env::var("MC_BREADCRUMB").is_ok() {
        return 1;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

thread_local! {
    static HEART: RefCell<Option<std::sync::Arc<AtomicU64>>> = const { RefCell::new(None) };
}
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// Called before each small unit of work: tells the watchdog this worker is alive, and (after a crash, in the
/// second, single-threaded run) leaves a breadcrumb naming the case being executed.
pub fn beat(case: impl FnOnce() -> Value) {
    HEART.with(|h| {
        if let Some(a) = &*h.borrow() {
            a.store(now_ms(), SeqCst);
        }
    });
    if let Ok(p) = std::env::var("MC_BREADCRUMB") {
        let _ = std::fs::write(p, case().to_string());
    }
}

/// Runs part of a check itself. A panic here is outside any guarded call: what the exploration takes for granted (a
/// start state, a reference run) did not come about. It is reported unless something has been reported already.
pub fn unguarded(ctx: &Ctx, f: impl FnOnce()) {
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
        if ctx.violations.lock().unwrap_or_else(|e| e.into_inner()).is_empty() {
            ctx.fail("unexpected", format!("the exploration met something that must not happen: {}", m), json!({"unexpected": m}));
        }
    }
}

/// Runs f(item) for every item on all cores. Each item may take at most HANG_S seconds between beats.
pub fn par<T: Sync>(ctx: &Ctx, items: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    let n = workers();
    let done = AtomicUsize::new(0);
    let hearts: Vec<std::sync::Arc<AtomicU64>> = (0..n).map(|_| std::sync::Arc::new(AtomicU64::new(now_ms()))).collect();
    std::thread::scope(|s| {
        for w in 0..n {
            let (f, next, done, heart) = (&f, &next, &done, hearts[w].clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    HEART.with(|h| *h.borrow_mut() = Some(heart.clone()));
                    loop {
                        if ctx.stopped() {
                            break;
                        }
                        let i = next.fetch_add(1, SeqCst);
                        if i >= items.len() {
                            break;
                        }
                        heart.store(now_ms(), SeqCst);
                        unguarded(ctx, || f(&items[i]));
                    }
                    heart.store(u64::MAX, SeqCst);
                    done.fetch_add(1, SeqCst);
                })
                .expect("spawn");
        }
        let (done, hearts) = (&done, &hearts);
        s.spawn(move || {
            while done.load(SeqCst) < n {
                std::thread::sleep(std::time::Duration::from_millis(2));
                let lim = HANG_S.load(SeqCst) * 1000;
                for h in hearts {
                    let t = h.load(SeqCst);
                    if t != u64::MAX && now_ms().saturating_sub(t) > lim {
                        ctx.fail(
                            "hang",
                            format!("an operation of the code under test did not return within {} s", lim / 1000),
                            json!({"hang": true}),
                        );
                        let c = ctx.finish();
                        std::process::exit(c);
                    }
                }
            }
        });
    });
}

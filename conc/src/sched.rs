//! Systematic exploration of schedules. Threads are coroutines on one OS thread; every lock operation of the code
//! under test (through the parking_lot stand-in) is a scheduling point. Two modes:
//! - `Full`: every schedule up to the commutation of operations that cannot interfere (different locks, or both
//!   shared on the same lock), by depth-first search with sleep sets; no bound on preemptions; a critical section
//!   in which no other lock operation happens is one step;
//! - `Bounded(n)`: every schedule with at most n preemptions, with further scheduling points after each release,
//!   before and after each
//!   release, nothing treated as commuting.
use crate::ctx::*;
use generator::{Generator, Gn};
use parking_lot::mc::{self as pl, Kind, Op};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Full,
    Bounded(usize),
}

thread_local! {
    /// seed of the code under test's hash maps (they iterate in the same order in every execution of a scenario)
    pub static HASH_SEED: std::cell::Cell<usize> = const { std::cell::Cell::new(0x5eed) };
    /// transitions executed so far in this execution
    static CLOCK: RefCell<u64> = const { RefCell::new(0) };
    static CUR: RefCell<usize> = const { RefCell::new(usize::MAX) };
    /// per thread: the transition number at which its current operation took its first step
    static BEGIN: RefCell<Vec<Option<u64>>> = const { RefCell::new(Vec::new()) };
}
/// Marks the start of an operation of the current thread (it counts as started when it takes its first step).
pub fn op_begin() {
    let c = CUR.with(|c| *c.borrow());
    BEGIN.with(|b| {
        if let Some(x) = b.borrow_mut().get_mut(c) {
            *x = None
        }
    });
}
/// (first step, last step) of the operation of the current thread that ends here.
pub fn op_end() -> (u64, u64) {
    let c = CUR.with(|c| *c.borrow());
    let e = CLOCK.with(|x| *x.borrow());
    (BEGIN.with(|b| b.borrow().get(c).copied().flatten()).unwrap_or(e), e)
}
/// The number of the current step: for a call beginning or ending here.
pub fn mark() -> u64 {
    CLOCK.with(|x| *x.borrow())
}
pub fn tid() -> usize {
    CUR.with(|c| *c.borrow())
}

thread_local! {
    static SCOPES: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}
fn yielder(op: Op) {
    let c = CUR.with(|c| *c.borrow());
    let s = SCOPES.with(|s| s.borrow()[c]) as *mut generator::Scope<'static, 'static, (), Op>;
    unsafe { (*s).yield_with(op) };
}

/// Coroutines of one execution all run on the thread that created them.
struct AnySend<T>(T);
unsafe impl<T> Send for AnySend<T> {}
thread_local! {
    /// finished coroutines whose stacks are used again
    static POOL: RefCell<Vec<Generator<'static, (), Op>>> = const { RefCell::new(Vec::new()) };
}

pub type Body = Box<dyn FnOnce()>;
/// One execution: the thread bodies, and the check made when all have finished.
pub struct World {
    pub threads: Vec<Body>,
    pub check: Box<dyn FnOnce() -> Result<(), (String, String)>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Pend {
    tid: usize,
    lock: u32,
    kind: Kind,
}
fn independent(a: &Pend, b: &Pend) -> bool {
    if a.lock == 0 || b.lock == 0 {
        return false;
    }
    a.lock != b.lock || (a.kind.shared() && b.kind.shared())
}

struct Frame {
    enabled: Vec<Pend>,
    sleep: Vec<Pend>,
    tried: Vec<Pend>,
    last: usize,
    preempts: usize,
}
impl Frame {
    fn pick(&self, mode: Mode) -> Option<Pend> {
        let last_enabled = self.enabled.iter().any(|p| p.tid == self.last);
        let ok = |p: &&Pend| {
            if self.tried.iter().any(|q| q.tid == p.tid) || self.sleep.iter().any(|q| q.tid == p.tid) {
                return false;
            }
            match mode {
                Mode::Full => true,
                Mode::Bounded(n) => p.tid == self.last || !last_enabled || self.preempts < n,
            }
        };
        self.enabled.iter().filter(|p| p.tid == self.last).find(ok).or_else(|| self.enabled.iter().find(ok)).copied()
    }
}

pub struct Stats {
    pub schedules: u64,
    pub redundant: u64,
    pub steps: u64,
    pub nodes: u64,
}

enum Out {
    Done(Result<(), (String, String)>),
    Redundant,
    Deadlock(String),
    Diverged(String),
}

/// Runs one execution along frames (extending them) and then on; `free` = follow this schedule instead (replay).
fn execute(world: World, frames: &mut Vec<Frame>, mode: Mode, steps: &mut u64, free: Option<&[usize]>, sched: &mut Vec<usize>) -> Out {
    let n = world.threads.len();
    CLOCK.with(|c| *c.borrow_mut() = 0);
    BEGIN.with(|b| *b.borrow_mut() = vec![None; n]);
    pl::AFTER_RELEASE.with(|a| a.set(matches!(mode, Mode::Bounded(_))));
    pl::SHORT.with(|a| a.set(mode == Mode::Full));
    let panics: Rc<RefCell<Vec<String>>> = Default::default();
    let mut gens: Vec<Generator<'static, (), Op>> = vec![];
    SCOPES.with(|s| *s.borrow_mut() = vec![0; n]);
    for (i, body) in world.threads.into_iter().enumerate() {
        let p = panics.clone();
        let body = AnySend(move |mut s: generator::Scope<'static, 'static, (), Op>| {
            SCOPES.with(|x| x.borrow_mut()[i] = &mut s as *mut _ as usize);
            if let Err(e) = guard(body) {
                p.borrow_mut().push(e);
            }
            Op { state: std::ptr::null(), kind: Kind::Step }
        });
        let run = move |s: generator::Scope<'_, 'static, (), Op>| {
            let b = body;
            let s: generator::Scope<'static, 'static, (), Op> = unsafe { std::mem::transmute(s) };
            (b.0)(s)
        };
        gens.push(match POOL.with(|p| p.borrow_mut().pop()) {
            Some(mut g) => {
                g.scoped_init(run);
                g
            }
            None => Gn::<()>::new_scoped_opt(0x8000, run),
        });
    }
    let mut ids: HashMap<usize, u32> = HashMap::new();
    let mut pend: Vec<Option<Op>> = vec![None; n];
    let resume = |i: usize, g: &mut Generator<'static, (), Op>| -> Option<Op> {
        CUR.with(|c| *c.borrow_mut() = i);
        pl::TID.with(|t| t.set(i + 2));
        pl::set_scheduler(Some(yielder));
        let r = g.resume();
        pl::set_scheduler(None);
        CUR.with(|c| *c.borrow_mut() = usize::MAX);
        if g.is_done() {
            None
        } else {
            r
        }
    };
    for i in 0..n {
        pend[i] = resume(i, &mut gens[i]);
    }
    let mut depth = 0;
    let mut last = usize::MAX;
    let mut preempts = 0;
    let mut sleep: Vec<Pend> = vec![];
    let mut redundant = false;
    loop {
        let mut enabled = vec![];
        let mut live = 0;
        for (i, p) in pend.iter().enumerate() {
            if let Some(op) = p {
                live += 1;
                let lock = if op.state.is_null() {
                    0
                } else {
                    let next = ids.len() as u32 + 1;
                    *ids.entry(op.state as usize).or_insert(next)
                };
                if op.enabled() {
                    enabled.push(Pend { tid: i, lock, kind: op.kind });
                }
            }
        }
        if live == 0 {
            break;
        }
        if enabled.is_empty() {
            let d: Vec<String> = pend.iter().enumerate().filter_map(|(i, p)| p.map(|o| format!("thread {} waits ({:?})", i, o.kind))).collect();
            for g in gens {
                std::mem::forget(g);
            }
            return Out::Deadlock(d.join(", "));
        }
        let choice;
        if redundant {
            choice = enabled[0];
        } else if let Some(f) = free {
            choice = match f.get(depth) {
                Some(t) => match enabled.iter().find(|p| p.tid == *t) {
                    Some(p) => *p,
                    None => return Out::Diverged(format!("step {}: thread {} is not enabled", depth, t)),
                },
                None => enabled.iter().find(|p| p.tid == last).copied().unwrap_or(enabled[0]),
            };
        } else if depth < frames.len() {
            let f = &frames[depth];
            if f.enabled != enabled {
                return Out::Diverged(format!("step {}: {:?} now, {:?} before", depth, enabled, f.enabled));
            }
            choice = *f.tried.last().unwrap();
        } else {
            let f = Frame { enabled: enabled.clone(), sleep: sleep.clone(), tried: vec![], last, preempts };
            match f.pick(mode) {
                Some(p) => {
                    choice = p;
                    let mut f = f;
                    f.tried.push(p);
                    frames.push(f);
                }
                None => {
                    // everything enabled is asleep: any continuation repeats an explored schedule. Finish it anyhow.
                    redundant = true;
                    choice = enabled[0];
                }
            }
        }
        if !redundant && free.is_none() && mode == Mode::Full {
            let f = &frames[depth];
            let t = &f.tried[..f.tried.len() - 1];
            sleep = f.sleep.iter().chain(t.iter()).filter(|p| p.tid != choice.tid && independent(p, &choice)).copied().collect();
        }
        if last != usize::MAX && choice.tid != last && enabled.iter().any(|p| p.tid == last) {
            preempts += 1;
        }
        last = choice.tid;
        sched.push(choice.tid);
        let now = CLOCK.with(|c| {
            *c.borrow_mut() += 1;
            *c.borrow()
        });
        BEGIN.with(|b| {
            let x = &mut b.borrow_mut()[choice.tid];
            if x.is_none() {
                *x = Some(now);
            }
        });
        *steps += 1;
        depth += 1;
        pend[choice.tid] = resume(choice.tid, &mut gens[choice.tid]);
    }
    POOL.with(|p| p.borrow_mut().extend(gens));
    if redundant {
        return Out::Redundant;
    }
    if let Some(p) = panics.borrow().first() {
        return Out::Done(Err(("crash".into(), p.clone())));
    }
    match guard(world.check) {
        Ok(r) => Out::Done(r),
        Err(p) => Out::Done(Err(("crash".into(), format!("after the threads finished: {}", p)))),
    }
}

/// Explores all schedules of the scenario. `case` describes it (for replay files).
pub fn explore(ctx: &Ctx, mode: Mode, case: &Value, build: &dyn Fn() -> World) -> Stats {
    let mut st = Stats { schedules: 0, redundant: 0, steps: 0, nodes: 0 };
    let mut frames: Vec<Frame> = vec![];
    loop {
        let mut sched = vec![];
        let depth0 = frames.len() as u64;
        let out = execute(build(), &mut frames, mode, &mut st.steps, None, &mut sched);
        st.nodes += frames.len() as u64 - depth0;
        let rep = || {
            let mut c = case.clone();
            c["schedule"] = json!(sched);
            c["mode"] = json!(match mode {
                Mode::Full => -1,
                Mode::Bounded(n) => n as i64,
            });
            c
        };
        match out {
            Out::Done(Ok(())) => st.schedules += 1,
            Out::Done(Err((sig, msg))) => {
                ctx.fail(&sig, msg, rep());
                st.schedules += 1;
            }
            Out::Redundant => st.redundant += 1,
            Out::Deadlock(m) => ctx.fail("deadlock", format!("deadlock: {}", m), rep()),
            Out::Diverged(m) => {
                // the code under test did not repeat its behaviour for the same schedule: nothing can be concluded
                eprintln!("the code under test is not deterministic under a fixed schedule: {}", m);
                ctx.truncated.store(true, SeqCst);
                ctx.count("diverged", 1);
                break;
            }
        }
        beat(|| case.clone());
        if ctx.stopped() {
            break;
        }
        // backtrack
        loop {
            match frames.last_mut() {
                None => {
                    return done(ctx, st);
                }
                Some(f) => {
                    if let Some(p) = f.pick(mode) {
                        f.tried.push(p);
                        break;
                    }
                    frames.pop();
                }
            }
        }
    }
    done(ctx, st)
}
fn done(ctx: &Ctx, st: Stats) -> Stats {
    ctx.st(st.nodes);
    ctx.tr(st.steps);
    ctx.trace(st.schedules);
    ctx.count("redundant_schedules", st.redundant);
    st
}

pub fn replay(ctx: &Ctx, case: &Value, build: &dyn Fn() -> World) {
    let sched: Vec<usize> = case["schedule"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let mode = match case["mode"].as_i64().unwrap() {
        -1 => Mode::Full,
        n => Mode::Bounded(n as usize),
    };
    let mut frames = vec![];
    let mut steps = 0;
    let mut out = vec![];
    match execute(build(), &mut frames, mode, &mut steps, Some(&sched), &mut out) {
        Out::Done(Ok(())) | Out::Redundant => {}
        Out::Done(Err((sig, msg))) => ctx.fail(&sig, msg, case.clone()),
        Out::Deadlock(m) => ctx.fail("deadlock", format!("deadlock: {}", m), case.clone()),
        Out::Diverged(m) => eprintln!("cannot replay: {}", m),
    }
}

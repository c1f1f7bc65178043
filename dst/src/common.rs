//! What every family of simulated runs shares: outcomes, the in-process run harness (fresh thread,
//! seeded entropy, captured panics) and small helpers.
use crate::model::Set;
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// (kind, detail) of the first violation of the property
    pub viol: Option<(String, String)>,
    /// identifiers of known findings this run ran into
    pub known: Vec<String>,
    /// what happened how often (fault kinds that fired, rare conditions hit, ...)
    pub ctr: BTreeMap<String, u64>,
    /// hash of the complete event trace of the run
    pub trace: u64,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub steps: u64,
}
impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.ctr.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fail(&mut self, kind: &str, detail: impl Into<String>) {
        if self.viol.is_none() {
            let mut d: String = detail.into();
            if d.len() > 3000 {
                let mut cut = 3000;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
                d.push_str(" ...");
            }
            self.viol = Some((kind.to_string(), d));
        }
    }
    pub fn ok(&self) -> bool {
        self.viol.is_none()
    }
    pub fn mix_trace(&mut self, s: &str) {
        let mut h = if self.trace == 0 { 0xcbf29ce484222325 } else { self.trace };
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.trace = h;
    }
    pub fn to_json(&self) -> Value {
        serde_json::json!({
            "viol": self.viol.as_ref().map(|(k, d)| serde_json::json!([k, d])),
            "known": self.known, "ctr": self.ctr, "trace": format!("{:016x}", self.trace),
            "nontrivial": self.nontrivial, "sim_ns": self.sim_ns, "steps": self.steps,
        })
    }
}

/// A family of simulated runs deciding one property.
pub trait Family {
    /// One integer decides the whole run: workload, schedule, faults, entropy.
    fn gen(&self, seed: u64, tier: Tier) -> Value;
    fn run(&self, case: &Value) -> Outcome;
    /// Smaller variants of a failing case, best first.
    fn shrink(&self, case: &Value) -> Vec<Value>;
    /// (quick, thorough) number of runs
    fn budget(&self) -> (u64, u64);
    fn real(&self) -> Vec<&'static str>;
    fn stub(&self) -> Vec<&'static str>;
    fn rule(&self) -> &'static str;
    fn is_proc(&self) -> bool {
        false
    }
}

// ------------------------------------------------------------------------------ in-process runs
thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    /// log records until the injected interruption (0: none)
    pub static LOG_LEFT: Cell<u64> = const { Cell::new(0) };
    pub static LOG_SEEN: Cell<u64> = const { Cell::new(0) };
    /// the scheduler of concurrent sessions this thread takes part in, if any
    pub static SCHED: RefCell<Option<(std::sync::Arc<crate::conc::Sched>, usize)>> = const { RefCell::new(None) };
}
thread_local! {
    /// whether allocations and waits on this thread are preemption points
    static POINTS: Cell<bool> = const { Cell::new(false) };
}
/// Whether allocations on this thread are preemption points of its scheduler from now on.
pub fn set_points(on: bool) {
    POINTS.with(|c| c.set(on));
}
/// Calls into the scheduler this thread belongs to, if any; what the scheduler does itself is no preemption point.
pub fn at_sched(f: impl FnOnce(&crate::conc::Sched, usize)) -> bool {
    let was = POINTS.with(|c| c.replace(false));
    let sched = SCHED.with(|s| s.try_borrow().ok().and_then(|s| s.clone()));
    let some = sched.is_some();
    if let Some((s, me)) = sched {
        f(&s, me);
    }
    POINTS.with(|c| c.set(was));
    some
}
/// Waiting for another thread (for a lock, say) means passing the baton on.
extern "C" fn wait_hook() -> libc::c_int {
    if POINTS.try_with(|c| c.get()).unwrap_or(false) {
        at_sched(|s, me| s.pass(me)) as libc::c_int
    } else {
        0
    }
}
/// The system's allocator, with allocations of scheduled threads as preemption points.
pub struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if POINTS.try_with(|c| c.get()).unwrap_or(false) {
            at_sched(|s, me| s.alloc_point(me));
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
}
/// The payload of an injected interruption.
pub struct Interrupt;

struct SimLog;
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        LOG_SEEN.with(|c| c.set(c.get() + 1));
        at_sched(|s, me| s.point(me));
        let left = LOG_LEFT.with(|c| c.get());
        if left > 0 {
            // format the message like a real logger would
            let _ = format!("{}", record.args());
            LOG_LEFT.with(|c| c.set(left - 1));
            if left == 1 {
                std::panic::panic_any(Interrupt);
            }
        }
    }
    fn flush(&self) {}
}
static LOGGER: SimLog = SimLog;

pub fn install_hooks() {
    install_wait_hook();
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            if info.payload().downcast_ref::<Interrupt>().is_some() {
                return;
            }
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            old(info);
        }
    }));
}

pub enum Called<T> {
    Done(T),
    Interrupted,
    Panicked(String),
}
/// Call into the code under test; `interrupt` > 0 unwinds it at that log record.
pub fn call<T>(interrupt: u64, f: impl FnOnce() -> T) -> Called<T> {
    PANIC.with(|p| *p.borrow_mut() = None);
    LOG_LEFT.with(|c| c.set(interrupt));
    let r = catch_unwind(AssertUnwindSafe(f));
    LOG_LEFT.with(|c| c.set(0));
    match r {
        Ok(v) => Called::Done(v),
        Err(e) if e.downcast_ref::<Interrupt>().is_some() => Called::Interrupted,
        Err(_) => Called::Panicked(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into())),
    }
}
pub fn call0<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match call(0, f) {
        Called::Done(v) => Ok(v),
        Called::Interrupted => Err("interrupted".into()),
        Called::Panicked(m) => Err(m),
    }
}

/// Has the shim call `wait_hook` where a thread of this process would wait for another one.
pub fn install_wait_hook() {
    unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, b"dst_set_wait_hook\0".as_ptr() as *const libc::c_char);
        if !p.is_null() {
            let f: unsafe extern "C" fn(extern "C" fn() -> libc::c_int) = std::mem::transmute(p);
            f(wait_hook);
        }
    }
}
type SeedFn = unsafe extern "C" fn(u64);
fn seed_fn() -> Option<SeedFn> {
    unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, b"dst_seed_thread\0".as_ptr() as *const libc::c_char);
        if p.is_null() {
            None
        } else {
            Some(std::mem::transmute::<*mut libc::c_void, SeedFn>(p))
        }
    }
}
pub fn have_shim() -> bool {
    seed_fn().is_some()
}
/// Run on a fresh thread whose entropy (hash map keys, random numbers) is a function of `entropy`.
pub fn on_fresh_thread<T: Send + 'static>(entropy: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    match spawn_seeded(entropy, f).join() {
        Ok(v) => v,
        Err(_) => panic!("harness: the run's own code panicked"),
    }
}
pub fn spawn_seeded<T: Send + 'static>(
    entropy: u64,
    f: impl FnOnce() -> T + Send + 'static,
) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            if let Some(s) = seed_fn() {
                unsafe { s(entropy) }
            }
            QUIET.with(|q| q.set(true));
            f()
        })
        .expect("harness: cannot spawn a thread")
}

pub fn fmt_sets(v: &[Set]) -> String {
    let l: Vec<String> = v
        .iter()
        .take(12)
        .map(|s| format!("{{{}}}", s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    format!("{} sets [{}{}]", v.len(), l.join(" "), if v.len() > 12 { " ..." } else { "" })
}
pub fn set_of(it: impl IntoIterator<Item = usize>) -> Set {
    it.into_iter().collect()
}
pub fn get_u(v: &Value, k: &str) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(0)
}
pub fn get_s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
pub fn get_b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
pub fn from<T: serde::de::DeserializeOwned>(v: &Value, k: &str) -> T {
    serde_json::from_value(v.get(k).cloned().unwrap_or(Value::Null))
        .unwrap_or_else(|e| panic!("harness: bad case field {}: {}", k, e))
}
/// Variants of a JSON array with elements removed: halves first, then single ones.
pub fn drop_from_array(v: &Value, k: &str, min: usize) -> Vec<Value> {
    let mut out = vec![];
    if let Some(a) = v.get(k).and_then(|x| x.as_array()) {
        let n = a.len();
        let mut size = n / 2;
        while size >= 1 {
            let mut i = 0;
            while i < n {
                let j = (i + size).min(n);
                if n - (j - i) >= min {
                    let mut b = a.clone();
                    b.drain(i..j);
                    let mut w = v.clone();
                    w[k] = Value::Array(b);
                    out.push(w);
                }
                i = j;
            }
            size /= 2;
        }
    }
    out
}

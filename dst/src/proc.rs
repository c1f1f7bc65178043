//! Whole tools run as simulated processes: every thread switch, clock, random number, file operation
//! and allocation of the real binary goes through libdst.so, which follows a configuration derived
//! from the run's seed.
use crate::common::*;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};

use std::fs;
use std::path::{Path, PathBuf};

pub const WALL_S: u64 = 25;

/// How one process is simulated.
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub seed: u64,
    pub policy: (u64, u64),
    pub pct: Vec<u64>,
    pub sched: Vec<(u64, i64)>,
    pub malloc: bool,
    pub latency: u64,
    pub clock0: u64,
    pub maxev: u64,
    pub faults: Vec<Fault>,
}
/// A fault, placed at a specific operation.
#[derive(Clone, Debug)]
pub struct Fault {
    pub cls: String,
    pub path: String,
    pub nth: u64,
    pub kind: String,
    pub arg: i64,
    pub sticky: bool,
    pub sarg: String,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub tid: u64,
    pub cls: String,
    pub path: String,
    pub nth: u64,
    pub res: i64,
    pub err: i64,
    pub flags: u64,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Op(Op),
    Clock { tid: u64, clk: u64, ns: u64 },
    Fault { id: usize, kind: String, n: u64 },
    Other,
}
#[derive(Clone, Debug, Default)]
pub struct Ran {
    /// exit status; None: did not end
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
    pub evs: Vec<Ev>,
    pub sched: Vec<(u64, i64)>,
    pub why: String,
    pub sim_ns: u64,
    pub events: u64,
    pub decisions: u64,
    pub switches: u64,
    pub threads: u64,
    pub hash: String,
    pub mallocs: u64,
}
impl Ran {
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.evs.iter().filter_map(|e| if let Ev::Op(o) = e { Some(o) } else { None })
    }
    pub fn crashed(&self) -> bool {
        self.why == "crash"
    }
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Set if the process got stuck: simulated deadlock, no end, or never-ending activity.
    pub fn stuck(&self) -> Option<String> {
        match (self.code, self.why.as_str()) {
            (_, "deadlock") => Some("all threads wait for each other".into()),
            (_, "livelock") => Some(format!("still busy after {} simulated operations", self.events)),
            (None, _) => Some(format!("no end after {} s", WALL_S)),
            _ => None,
        }
    }
    pub fn signalled(&self) -> bool {
        matches!(self.code, Some(c) if c < 0)
    }
}

// ---------------------------------------------------------------------------------- directories
thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(0) };
    static BASE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
/// A fresh directory for simulated processes, removed when dropped.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        let base = BASE.with(|b| {
            b.borrow_mut()
                .get_or_insert_with(|| match std::env::var_os("DST_SCRATCH") {
                    Some(d) => PathBuf::from(d),
                    None => crate::drive::mktemp(),
                })
                .clone()
        });
        let n = NEXT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let tid = unsafe { libc::syscall(libc::SYS_gettid) };
        let d = base.join(format!("p{}-{}-{}", std::process::id(), tid, n));
        fs::create_dir(&d).unwrap_or_else(|e| panic!("harness: scratch directory {}: {}", d.display(), e));
        Dir(d)
    }
    pub fn work(&self) -> PathBuf {
        let w = self.0.join("w");
        if !w.exists() {
            fs::create_dir(&w).expect("harness: scratch");
        }
        w
    }
    pub fn put(&self, name: &str, content: &[u8]) {
        let p = self.work().join(name);
        if let Some(d) = p.parent() {
            let _ = fs::create_dir_all(d);
        }
        fs::write(p, content).expect("harness: scratch");
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.work().join(name)).ok()
    }
    pub fn remove(&self, name: &str) {
        let _ = fs::remove_file(self.work().join(name));
    }
    /// Names of all files, sorted.
    pub fn list(&self) -> Vec<String> {
        let mut v: Vec<String> = fs::read_dir(self.work())
            .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
            .unwrap_or_default();
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

pub fn tool_path(tool: &str) -> PathBuf {
    crate::drive::verif().join("target/repo/release").join(tool)
}

fn cfg_text(c: &Cfg) -> String {
    let mut s = format!(
        "seed {}\npolicy {} {}\nmalloc {}\nmaxev {}\nclock0 {}\nlatency {}\n",
        c.seed, c.policy.0, c.policy.1, c.malloc as u8, c.maxev, c.clock0, c.latency
    );
    for p in &c.pct {
        s += &format!("pct {}\n", p);
    }
    for (i, t) in &c.sched {
        s += &format!("sched {} {}\n", i, t);
    }
    for (i, f) in c.faults.iter().enumerate() {
        s += &format!(
            "fault {} {} {} {} {} {} {} {}\n",
            i,
            f.cls,
            f.path.replace(' ', "_"),
            f.nth,
            f.kind,
            f.arg,
            f.sticky as u8,
            if f.sarg.is_empty() { "-" } else { &f.sarg }
        );
    }
    s
}

/// Runs a tool in the directory's work folder under the simulator.
pub fn run_tool(dir: &Dir, tool: &str, args: &[String], stdin: Option<&[u8]>, cfg: &Cfg) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let w = dir.work();
    let f = |n: &str| dir.0.join(n);
    fs::write(f("cfg"), cfg_text(cfg)).expect("harness: scratch");
    fs::write(f("in"), stdin.unwrap_or(b"")).expect("harness: scratch");
    let mk = |n: &str| fs::File::create(f(n)).expect("harness: scratch");
    let mut c = Command::new(tool_path(tool));
    c.args(args)
        .current_dir(&w)
        .env_clear()
        .env("LD_PRELOAD", crate::drive::verif().join("target/libdst.so"))
        .env("DST_MODE", "active")
        .env("DST_CFG", f("cfg"))
        .env("DST_OUT", f("trace"))
        .stdin(Stdio::from(fs::File::open(f("in")).expect("harness: scratch")))
        .stdout(Stdio::from(mk("out")))
        .stderr(Stdio::from(mk("err")));
    let mut child = c.spawn().unwrap_or_else(|e| panic!("harness: cannot start {}: {}", tool, e));
    let pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, child.id(), 0) } as i32;
    let mut done = false;
    if pfd >= 0 {
        let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
        let end = std::time::Instant::now() + std::time::Duration::from_secs(WALL_S);
        loop {
            let left = end.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
            let r = unsafe { libc::poll(&mut p, 1, left) };
            if r > 0 {
                done = true;
            }
            if r >= 0 || left == 0 {
                break;
            }
        }
        unsafe { libc::close(pfd) };
    } else {
        for _ in 0..WALL_S * 2000 {
            if child.try_wait().expect("harness: wait").is_some() {
                done = true;
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(500));
        }
    }
    if !done {
        let _ = child.kill();
    }
    let st = child.wait().expect("harness: wait");
    let mut r = Ran {
        code: if done { Some(st.code().unwrap_or_else(|| -st.signal().unwrap_or(99))) } else { None },
        out: fs::read(f("out")).unwrap_or_default(),
        err: String::from_utf8_lossy(&fs::read(f("err")).unwrap_or_default()).into_owned(),
        ..Default::default()
    };
    parse_trace(&f("trace"), &mut r);
    if r.code == Some(251) {
        panic!("harness: simulator configuration: {} {}", r.why, cfg_text(cfg));
    }
    r
}
fn parse_trace(p: &Path, r: &mut Ran) {
    let text = fs::read(p).unwrap_or_default();
    let text = String::from_utf8_lossy(&text);
    for line in text.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        let n = |k: usize| w.get(k).and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
        match w[0] {
            "o" if w.len() >= 7 => r.evs.push(Ev::Op(Op {
                tid: n(1) as u64,
                cls: w[2].into(),
                path: w[3].into(),
                nth: n(4) as u64,
                res: n(5),
                err: n(6),
                flags: w.get(7).and_then(|s| u64::from_str_radix(s, 8).ok()).unwrap_or(0),
            })),
            "c" => r.evs.push(Ev::Clock { tid: n(1) as u64, clk: n(2) as u64, ns: n(3) as u64 }),
            "f" => r.evs.push(Ev::Fault { id: n(1) as usize, kind: w.get(2).unwrap_or(&"").to_string(), n: n(4) as u64 }),
            "s" => r.sched.push((n(1) as u64, n(2))),
            "end" => {
                r.why = w.get(1).unwrap_or(&"").to_string();
                r.sim_ns = n(2) as u64;
                r.events = n(3) as u64;
                r.decisions = n(4) as u64;
                r.switches = n(5) as u64;
                r.threads = n(6) as u64;
                r.hash = w.get(7).unwrap_or(&"").to_string();
                r.mallocs = n(8) as u64;
            }
            _ => r.evs.push(Ev::Other),
        }
    }
}
/// Book-keeping every simulated process adds to its run.
pub fn account(o: &mut Outcome, r: &Ran) {
    o.steps += r.events;
    o.sim_ns += r.sim_ns;
    o.mix_trace(&r.hash);
    o.mix_trace(&format!("{:?}", r.code));
    o.count("simulated processes", 1);
    o.count("thread switches", r.switches);
    for e in &r.evs {
        if let Ev::Fault { kind, .. } = e {
            o.count(&format!("fault: {}", kind), 1);
        }
    }
    if r.threads > 2 {
        o.count("multi-threaded processes", 1);
    }
}

// ------------------------------------------------------------------------------ cases as JSON
/// Schedule part of a case.
pub fn gen_sched(r: &mut Rng, threads: bool) -> Value {
    let policy = if !threads {
        json!([0, 0])
    } else {
        match r.below(6) {
            0 => json!([0, 0]),
            1 => json!([3, 0]),
            2 => json!([2, 0]),
            3 => json!([1, 20]),
            4 => json!([1, 500]),
            _ => json!([1, 200]),
        }
    };
    let mut pct: Vec<u64> = vec![];
    if policy[0] == 2 {
        for _ in 0..r.range(1, 4) {
            let m = *r.pick(&[50, 400, 2000]);
            pct.push(r.below(m) as u64);
        }
    }
    json!({
        "seed": r.next() >> 1, "policy": policy, "pct": pct, "sched": [],
        "malloc": threads && r.chance(1, 5),
        "latency": *r.pick(&[0u64, 1_000, 200_000, 200_000, 50_000_000, 30_000_000_000]),
        "clock0": *r.pick(&[0u64, 1_600_000_000_000_000_000, 4_102_444_800_000_000_000]),
    })
}
pub fn cfg_of(s: &Value) -> Cfg {
    let p: Vec<u64> = from(s, "policy");
    Cfg {
        seed: get_u(s, "seed"),
        policy: (p[0], p[1]),
        pct: from(s, "pct"),
        sched: from(s, "sched"),
        malloc: get_b(s, "malloc"),
        latency: get_u(s, "latency"),
        clock0: get_u(s, "clock0"),
        maxev: 4_000_000,
        faults: vec![],
    }
}
/// A fault of a case: `{"cls","path","kind","arg","sticky","sarg"}` and either `nth` (placed) or
/// `at` (per mille of the operations of that class and path that a run without faults makes).
/// A path may end in `*`.
pub fn place(f: &Value, dry: &Ran) -> Option<Fault> {
    let cls = get_s(f, "cls").to_string();
    let path = get_s(f, "path").to_string();
    let mut out = Fault {
        cls: cls.clone(),
        path: path.clone(),
        nth: get_u(f, "nth"),
        kind: get_s(f, "kind").into(),
        arg: f.get("arg").and_then(|x| x.as_i64()).unwrap_or(0),
        sticky: get_b(f, "sticky"),
        sarg: get_s(f, "sarg").into(),
    };
    if out.nth > 0 {
        return Some(out);
    }
    let at = get_u(f, "at");
    let among = |n: u64| (at * n / 1000).min(n.saturating_sub(1)) + 1;
    match cls.as_str() {
        "malloc" => {
            if dry.mallocs == 0 {
                return None;
            }
            out.path = "*".into();
            out.nth = among(dry.mallocs);
        }
        "any" => {
            // all operations but allocations
            let n = dry.ops().count() as u64 + dry.evs.iter().filter(|e| matches!(e, Ev::Clock { .. })).count() as u64;
            if n == 0 {
                return None;
            }
            out.path = "*".into();
            out.nth = among(n);
        }
        "clock" => {
            let n = dry.evs.iter().filter(|e| matches!(e, Ev::Clock { .. })).count() as u64;
            if n == 0 {
                return None;
            }
            out.path = "*".into();
            out.nth = among(n);
        }
        "thread" | "futexw" | "futexk" | "rand" | "yield" => {
            // not listed as operations: placed among the first few
            out.path = "*".into();
            out.nth = at / 100 + 1;
        }
        _ => {
            let fit: Vec<&Op> = dry
                .ops()
                .filter(|o| {
                    o.cls == cls
                        && match path.strip_suffix('*') {
                            Some(p) => o.path.starts_with(p) && o.path != "stderr",
                            None => o.path == path.replace(' ', "_"),
                        }
                })
                .collect();
            if fit.is_empty() {
                return None;
            }
            let o = fit[among(fit.len() as u64) as usize - 1];
            out.path = o.path.clone();
            out.nth = o.nth;
        }
    }
    Some(out)
}
pub fn fault_json(f: &Fault) -> Value {
    json!({"cls": f.cls, "path": f.path, "nth": f.nth, "kind": f.kind, "arg": f.arg, "sticky": f.sticky, "sarg": f.sarg})
}
/// Makes a step's schedule and faults explicit: what happened in `ran`, as deviations from the
/// default schedule.
pub fn explicit(step: &Value, ran: &Ran, faults: &[Fault]) -> Value {
    let mut s = step.clone();
    s["sched"]["policy"] = json!([0, 0]);
    s["sched"]["pct"] = json!([]);
    s["sched"]["sched"] = json!(ran.sched);
    s["faults"] = Value::Array(faults.iter().map(fault_json).collect());
    s["explicit"] = json!(true);
    s
}
/// Smaller schedules and fault lists of a step.
pub fn shrink_step(step: &Value) -> Vec<Value> {
    let mut out = vec![];
    for v in drop_from_array(step, "faults", 0) {
        out.push(v);
    }
    let mut set = |k: &str, v: Value| {
        if step["sched"][k] != v {
            let mut s = step.clone();
            s["sched"][k] = v;
            out.push(s);
        }
    };
    set("malloc", json!(false));
    set("latency", json!(200_000));
    set("latency", json!(0));
    set("clock0", json!(1_600_000_000_000_000_000u64));
    set("pct", json!([]));
    set("policy", json!([0, 0]));
    if step["sched"]["sched"].as_array().map_or(false, |a| !a.is_empty()) {
        let mut s = step.clone();
        s["sched"]["sched"] = json!([]);
        out.push(s);
        for v in drop_from_array(&step["sched"], "sched", 0).into_iter().take(60) {
            let mut s = step.clone();
            s["sched"] = v;
            out.push(s);
        }
    }
    out
}

// -------------------------------------------------------------------------------------- CSV
/// Records of a CSV text, and what follows the last line end.
pub fn csv(text: &str) -> (Vec<Vec<String>>, String) {
    let mut recs = vec![];
    let mut rec: Vec<String> = vec![];
    let mut field = String::new();
    let mut quoted = false;
    let mut start = 0; // where the current record starts
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if quoted {
            if c == '"' {
                if b.get(i + 1) == Some(&'"') {
                    field.push('"');
                    i += 1;
                } else {
                    quoted = false;
                }
            } else {
                field.push(c);
            }
        } else {
            match c {
                '"' => quoted = true,
                ',' => rec.push(std::mem::take(&mut field)),
                '\r' if b.get(i + 1) == Some(&'\n') => {}
                '\n' => {
                    rec.push(std::mem::take(&mut field));
                    recs.push(std::mem::take(&mut rec));
                    start = i + 1;
                }
                _ => field.push(c),
            }
        }
        i += 1;
    }
    (recs, b[start..].iter().collect())
}
pub fn csv_field(s: &str) -> String {
    if s.contains(|c| c == ',' || c == '"' || c == '\n' || c == '\r') || s.is_empty() {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
/// Last lines of a process's stderr, for messages.
pub fn tail_err(r: &Ran) -> String {
    let l: Vec<&str> = r.err.lines().collect();
    let k = l.len().saturating_sub(4);
    l[k..].join(" | ")
}
/// For evidence: kinds of tool endings.
pub fn count_end(o: &mut Outcome, r: &Ran) {
    let k = match r.code {
        Some(0) => "ended: exit 0".to_string(),
        _ if r.crashed() => "ended: injected crash".into(),
        Some(134) => "ended: abort".into(),
        Some(c) => format!("ended: exit {}", c),
        None => "ended: killed".into(),
    };
    o.count(&k, 1);
}

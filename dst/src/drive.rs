//! The driver: a pool of worker processes running seeds, minimisation, replay files, evidence.
use crate::common::*;
use crate::rng::{mix, mix_str};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
const STALL_S: u64 = 60;

pub fn env_dir(k: &str, default: &str) -> PathBuf {
    PathBuf::from(std::env::var(k).unwrap_or_else(|_| default.to_string()))
}
pub fn verif() -> PathBuf {
    env_dir("DST_VERIF", "/verif")
}
pub fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
    mix_str(mix(&[seed, idx, 0xD57]), prop)
}

// ---------------------------------------------------------------------- the workers' status words
pub struct Status(*mut u64);
unsafe impl Send for Status {}
impl Status {
    pub fn open(path: &Path) -> Status {
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("status file");
        f.set_len(4096).expect("status file");
        unsafe {
            use std::os::unix::io::AsRawFd;
            let p = libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            );
            assert!(p != libc::MAP_FAILED);
            Status(p as *mut u64)
        }
    }
    /// idx + 1 of the run being executed (0: none)
    pub fn set_current(&self, v: u64) {
        unsafe { std::ptr::write_volatile(self.0, v) }
    }
    pub fn current(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.0) }
    }
    pub fn bump(&self) {
        unsafe { std::ptr::write_volatile(self.0.add(1), std::ptr::read_volatile(self.0.add(1)) + 1) }
    }
    pub fn progress(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(1)) }
    }
    pub fn set_stop(&self) {
        unsafe { std::ptr::write_volatile(self.0.add(2), 1) }
    }
    pub fn stop(&self) -> bool {
        unsafe { std::ptr::read_volatile(self.0.add(2)) != 0 }
    }
}

fn limit_memory(gb: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// One worker: runs its share of the seeds until done, told to stop, or out of time.
pub fn worker(prop: &str, tier: Tier, seed: u64, w: u64, workers: u64, runs: u64, secs: u64, dir: &Path) {
    limit_memory(4);
    install_hooks();
    let fam = crate::family(prop);
    let st = Status::open(&dir.join(format!("w{}.st", w)));
    let t0 = Instant::now();
    let mut total = 0u64;
    let mut nontrivial = 0u64;
    let mut traces: HashSet<u64> = HashSet::new();
    let mut ctr: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let (mut sim_ns, mut steps) = (0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut digest = 0u64;
    let mut idx = w;
    while idx < runs && t0.elapsed().as_secs() < secs && !st.stop() {
        st.set_current(idx + 1);
        let case = fam.gen(case_seed(prop, seed, idx), tier);
        let o = fam.run(&case);
        st.bump();
        total += 1;
        sim_ns += o.sim_ns;
        steps += o.steps;
        digest = digest.wrapping_add(mix(&[idx, o.trace]));
        for (k, n) in &o.ctr {
            *ctr.entry(k.clone()).or_insert(0) += n;
        }
        for k in &o.known {
            *known.entry(k.clone()).or_insert(0) += 1;
        }
        if o.nontrivial {
            nontrivial += 1;
            if traces.len() < 3_000_000 {
                traces.insert(o.trace);
            }
            if samples.is_empty() || (samples.len() < 2 && total % 97 == 0) {
                samples.push(json!({"seed_index": idx, "case": case, "trace": format!("{:016x}", o.trace)}));
            }
        }
        if let Some((kind, detail)) = &o.viol {
            viols.push(json!({"idx": idx, "kind": kind, "detail": detail, "case": case}));
            break;
        }
        idx += workers;
    }
    st.set_current(0);
    let t: Vec<String> = traces.iter().map(|h| format!("{:016x}", h)).collect();
    let out = json!({"total": total, "nontrivial": nontrivial, "ctr": ctr, "known": known, "sim_ns": sim_ns,
        "steps": steps, "samples": samples, "viols": viols, "digest": format!("{:016x}", digest)});
    fs::write(dir.join(format!("w{}.traces", w)), t.join("\n")).expect("harness: cannot write results");
    fs::write(dir.join(format!("w{}.json", w)), out.to_string()).expect("harness: cannot write results");
}

fn self_cmd(extra: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(extra);
    c.env("LD_PRELOAD", verif().join("target/libdst.so"));
    c.env("DST_MODE", "passive");
    c.env("DST_SEED", "1");
    c.env_remove("RUST_BACKTRACE");
    c
}

pub enum CaseRun {
    Out(Value),
    Dead(String),
    Hang,
}
/// Runs one case in a process of its own.
pub fn run_case(prop: &str, case: &Value, scratch: &Path, timeout: Duration) -> CaseRun {
    let n = next_id();
    let inp = scratch.join(format!("case{}.json", n));
    let outp = scratch.join(format!("case{}.out", n));
    fs::write(&inp, case.to_string()).expect("harness: scratch");
    let mut child = self_cmd(&["runcase", prop, inp.to_str().unwrap(), outp.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: cannot start a case");
    let t0 = Instant::now();
    let r = loop {
        match child.try_wait().expect("harness: wait") {
            Some(st) => {
                break if st.success() {
                    match fs::read_to_string(&outp).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                        Some(v) => CaseRun::Out(v),
                        None => CaseRun::Dead("no output".into()),
                    }
                } else {
                    CaseRun::Dead(format!("{}", st))
                }
            }
            None => {
                if t0.elapsed() > timeout {
                    let _ = child.kill();
                    let _ = child.wait();
                    break CaseRun::Hang;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    };
    let _ = fs::remove_file(&inp);
    let _ = fs::remove_file(&outp);
    r
}
fn next_id() -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::SeqCst)
}
pub fn runcase(prop: &str, inp: &Path, outp: &Path) {
    limit_memory(4);
    install_hooks();
    let case: Value = serde_json::from_str(&fs::read_to_string(inp).unwrap()).unwrap();
    let fam = crate::family(prop);
    // a chain: earlier runs in the same process that the last one's failure depends on
    let mut o = Outcome::default();
    match case.get("chain").and_then(|c| c.as_array()) {
        Some(chain) => {
            for c in chain {
                o = fam.run(c);
            }
        }
        None => o = fam.run(&case),
    }
    fs::write(outp, o.to_json().to_string()).unwrap();
}
/// (kind, detail, trace) of the violation a case run shows
pub fn verdict(r: &CaseRun) -> Option<(String, String, String)> {
    match r {
        CaseRun::Out(v) => v.get("viol").and_then(|x| x.as_array()).map(|a| {
            (
                a[0].as_str().unwrap_or("").to_string(),
                a[1].as_str().unwrap_or("").to_string(),
                get_s(v, "trace").to_string(),
            )
        }),
        CaseRun::Dead(s) => Some(("process died".into(), s.clone(), "-".into())),
        CaseRun::Hang => Some(("no progress".into(), "the run did not end".into(), "-".into())),
    }
}

/// Greedy minimisation: take the first smaller variant that fails in the same way, repeat.
fn minimise(prop: &str, case: Value, kind: &str, scratch: &Path, budget: Duration) -> (Value, u64, u64) {
    let fam = crate::family(prop);
    let t0 = Instant::now();
    let mut best = case;
    let (mut tried, mut kept) = (0, 0);
    let timeout = if kind == "no progress" { Duration::from_secs(20) } else { Duration::from_secs(30) };
    'outer: loop {
        let cands = if best.get("chain").is_some() { drop_chain(&best) } else { fam.shrink(&best) };
        // several candidates at a time, the first one in order that fails wins
        for chunk in cands.chunks(8) {
            if t0.elapsed() > budget {
                break 'outer;
            }
            tried += chunk.len() as u64;
            let hits: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .map(|c| {
                        s.spawn(move || {
                            let r = run_case(prop, c, scratch, timeout);
                            verdict(&r).map_or(false, |v| v.0 == kind)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            if let Some(k) = hits.iter().position(|&h| h) {
                best = chunk[k].clone();
                kept += 1;
                continue 'outer;
            }
        }
        break;
    }
    (best, tried, kept)
}

/// Smaller chains; the last run stays.
fn drop_chain(v: &Value) -> Vec<Value> {
    let a = v["chain"].as_array().cloned().unwrap_or_default();
    let (last, before) = match a.split_last() {
        Some(x) => x,
        None => return vec![],
    };
    drop_from_array(&json!({ "c": before }), "c", 0)
        .into_iter()
        .map(|w| {
            let mut c = w["c"].as_array().cloned().unwrap_or_default();
            c.push(last.clone());
            json!({ "chain": c })
        })
        .collect()
}
/// The failure did not show in a fresh process: which earlier runs of the same worker does it need?
fn find_chain(prop: &str, tier: Tier, seed: u64, idx: u64, scratch: &Path) -> Option<(Value, String)> {
    let fam = crate::family(prop);
    let mut len = 4u64;
    loop {
        let first = if idx / WORKERS < len { idx % WORKERS } else { idx - len * WORKERS };
        let chain: Vec<Value> =
            (first..=idx).step_by(WORKERS as usize).map(|k| fam.gen(case_seed(prop, seed, k), tier)).collect();
        let case = json!({ "chain": chain });
        if let Some((k, _, _)) = verdict(&run_case(prop, &case, scratch, Duration::from_secs(120))) {
            return Some((case, k));
        }
        if first == idx % WORKERS {
            return None;
        }
        len *= 8;
    }
}

pub fn mktemp() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let base = if std::env::var_os("TMPDIR").is_none() && shm.is_dir() { shm } else { std::env::temp_dir() };
    let base = if fs::create_dir(base.join(format!("dst-probe-{}", std::process::id()))).is_ok() {
        let _ = fs::remove_dir(base.join(format!("dst-probe-{}", std::process::id())));
        base
    } else {
        std::env::temp_dir()
    };
    for k in 0.. {
        let d = base.join(format!("dst-{}-{}-{}", std::process::id(), k, Instant::now().elapsed().as_nanos()));
        if fs::create_dir(&d).is_ok() {
            // simulated processes get their directories in here
            std::env::set_var("DST_SCRATCH", &d);
            return d;
        }
        assert!(k < 1000, "harness: cannot create a scratch directory");
    }
    unreachable!()
}

fn spawn_worker(prop: &str, tier: Tier, seed: u64, w: u64, runs: u64, secs: u64, dir: &Path, from: u64) -> Child {
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    self_cmd(&[
        "worker", prop, t, &seed.to_string(), &w.to_string(), &WORKERS.to_string(), &runs.to_string(), &secs.to_string(),
        dir.to_str().unwrap(), &from.to_string(),
    ])
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(fs::File::create(dir.join(format!("w{}.err", w))).unwrap())
    .spawn()
    .expect("harness: cannot start a worker")
}

pub fn check(prop: &str, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let fam = crate::family(prop);
    let (q, t) = fam.budget();
    let env_n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = env_n("DST_RUNS").unwrap_or(if tier == Tier::Quick { q } else { t });
    let secs = env_n("DST_SECS").unwrap_or(if tier == Tier::Quick { 45 } else { 780 });
    println!("{}: {} runs from VERIF_SEED={} on {} workers, at most {} s", prop, runs, seed, WORKERS, secs);
    let dir = mktemp();
    let mut ws: Vec<Option<Child>> = vec![];
    let mut sts = vec![];
    for w in 0..WORKERS {
        sts.push(Status::open(&dir.join(format!("w{}.st", w))));
        ws.push(Some(spawn_worker(prop, tier, seed, w, runs, secs, &dir, w)));
    }
    let mut last: Vec<(u64, Instant)> = sts.iter().map(|s| (s.progress(), Instant::now())).collect();
    let mut viols: Vec<(u64, String, String, Value)> = vec![]; // idx kind detail case
    let mut error: Option<String> = None;
    let mut died = 0u64;
    while ws.iter().any(|w| w.is_some()) {
        std::thread::sleep(Duration::from_millis(15));
        for k in 0..ws.len() {
            let mut gone = false;
            if let Some(c) = ws[k].as_mut() {
                match c.try_wait().expect("harness: wait") {
                    Some(st) => {
                        gone = true;
                        if !st.success() {
                            let cur = sts[k].current();
                            if cur == 0 {
                                error = Some(format!("worker {} failed: {}: {}", k, st, tail(&dir.join(format!("w{}.err", k)))));
                            } else {
                                let idx = cur - 1;
                                let err = tail(&dir.join(format!("w{}.err", k)));
                                if err.contains("harness:") {
                                    error = Some(format!("worker {} failed at run {}: {}", k, idx, err));
                                } else {
                                    died += 1;
                                    let case = fam.gen(case_seed(prop, seed, idx), tier);
                                    viols.push((idx, "process died".into(), format!("the process running the case died ({}): {}", st, err), case));
                                }
                            }
                        }
                    }
                    None => {
                        let p = sts[k].progress();
                        if p != last[k].0 {
                            last[k] = (p, Instant::now());
                        } else if last[k].1.elapsed().as_secs() > STALL_S && sts[k].current() > 0 {
                            let _ = c.kill();
                            let _ = c.wait();
                            gone = true;
                            let idx = sts[k].current() - 1;
                            let case = fam.gen(case_seed(prop, seed, idx), tier);
                            viols.push((idx, "no progress".into(), format!("the run did not end within {} s", STALL_S), case));
                        }
                    }
                }
            }
            if gone {
                ws[k] = None;
                if let Some(v) = read_json(&dir.join(format!("w{}.json", k))) {
                    if let Some(a) = v["viols"].as_array() {
                        for x in a {
                            viols.push((get_u(x, "idx"), get_s(x, "kind").into(), get_s(x, "detail").into(), x["case"].clone()));
                        }
                    }
                }
                if !viols.is_empty() || error.is_some() {
                    for s in &sts {
                        s.set_stop();
                    }
                }
            }
        }
    }
    let run_s = t0.elapsed().as_secs_f64();
    // gather
    let (mut total, mut nontrivial, mut sim_ns, mut steps) = (0u64, 0u64, 0u64, 0u64);
    let mut ctr: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: HashSet<String> = HashSet::new();
    let mut samples = vec![];
    let mut digest = 0u64;
    for w in 0..WORKERS {
        if let Some(v) = read_json(&dir.join(format!("w{}.json", w))) {
            total += get_u(&v, "total");
            nontrivial += get_u(&v, "nontrivial");
            sim_ns += get_u(&v, "sim_ns");
            steps += get_u(&v, "steps");
            digest = digest.wrapping_add(u64::from_str_radix(get_s(&v, "digest"), 16).unwrap_or(0));
            for (k, n) in v["ctr"].as_object().into_iter().flatten() {
                *ctr.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
            for (k, n) in v["known"].as_object().into_iter().flatten() {
                *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
            if samples.len() < 3 {
                samples.extend(v["samples"].as_array().cloned().unwrap_or_default().into_iter().take(1));
            }
            if let Ok(s) = fs::read_to_string(dir.join(format!("w{}.traces", w))) {
                traces.extend(s.lines().map(|l| l.to_string()));
            }
        }
    }
    // A violation counts if it can be reproduced in a fresh process; then it is made small.
    let mut code = 0;
    viols.sort_by_key(|v| v.0);
    let mut replay_path = None;
    let mut unreproduced = 0;
    if error.is_none() {
        for (idx, kind, detail, case) in viols.iter().take(4) {
            let tmo = Duration::from_secs(if kind == "no progress" { STALL_S } else { 120 });
            let again = verdict(&run_case(prop, case, &dir, tmo));
            let mut case = case.clone();
            let found = match again {
                Some((k, _, _)) => Some(k),
                None if !fam.is_proc() => find_chain(prop, tier, seed, *idx, &dir).map(|(c, k)| {
                    case = c;
                    k
                }),
                None => None,
            };
            let kind2 = match found {
                Some(k) => k,
                None => {
                    unreproduced += 1;
                    println!("note: run {} ({}) did not fail again in a fresh process: {}", idx, kind, detail);
                    continue;
                }
            };
            let budget = Duration::from_secs(env_n("DST_SHRINK").unwrap_or(60));
            let (small, tried, kept) = minimise(prop, case.clone(), &kind2, &dir, budget);
            let (k, d, tr) = verdict(&run_case(prop, &small, &dir, tmo)).unwrap_or((kind2.clone(), detail.clone(), "-".into()));
            let rdir = verif().join("replays");
            let _ = fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}-{}-{}.json", prop, seed, idx));
            let body = json!({"property": prop, "kind": k, "detail": d, "trace": tr, "verif_seed": seed, "run": idx,
                "seed": case_seed(prop, seed, *idx), "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                "minimised": {"variants_tried": tried, "steps_taken": kept}, "case": small,
                "original_case": if case.get("chain").is_some() { Value::Null } else { case }});
            fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("harness: cannot write the replay file");
            println!("run {} (seed {}): {}", idx, case_seed(prop, seed, *idx), k);
            println!("  {}", d);
            println!("  minimised in {} of {} variants; replay with: ./check.sh --replay {}", kept, tried, path.display());
            println!("VIOLATION property={} replay={}", prop, path.display());
            replay_path = Some(path);
            code = 1;
            break;
        }
        if code == 0 && unreproduced > 0 {
            error = Some("a failing run could not be reproduced in a fresh process (nondeterminism outside the simulator's control)".into());
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    for line in known_lines(prop) {
        println!("{}", line);
    }
    let (faults, probes): (BTreeMap<_, _>, BTreeMap<_, _>) = ctr.into_iter().partition(|(k, _)| k.starts_with("fault: "));
    let ev = json!({
        "property": prop,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": if code == 1 { 1 } else { 0 },
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": traces.len(),
            "rule": fam.rule(),
            "samples": samples,
            "nontrivial_runs": nontrivial,
            "runs_per_hour": (total as f64 / run_s.max(0.001) * 3600.0).round(),
            "first_seed": case_seed(prop, seed, 0),
            "workers": WORKERS,
            "simulated_seconds": sim_ns as f64 / 1e9,
            "simulated_steps": steps,
            "faults_injected": faults,
            "probes": probes,
            "known_findings_hit": known,
            "processes_that_died": died,
            "digest_of_all_traces": format!("{:016x}", digest),
            "real_code": fam.real(),
            "stubs": fam.stub(),
            "replay": replay_path.as_ref().map(|p| p.display().to_string()),
        },
        "assumptions": [
            "the reference model (dst/src) states the property correctly; it shares no code with the crate",
            "sampling: a clean batch is evidence, not proof",
        ],
    });
    let edir = verif().join("evidence");
    let _ = fs::create_dir_all(&edir);
    if let Err(e) = fs::write(edir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()) {
        error = Some(format!("cannot write the evidence file: {}", e));
    }
    println!(
        "{}: {} runs ({} non-trivial, {} distinct) in {:.1} s, {} steps, {:.1} simulated s, digest {:016x}",
        prop, total, nontrivial, traces.len(), run_s, steps, sim_ns as f64 / 1e9, digest
    );
    if let Some(e) = error {
        if code == 0 {
            eprintln!("ERROR: {}", e);
            return 3;
        }
    }
    if code == 0 && total == 0 {
        eprintln!("ERROR: nothing was run");
        return 3;
    }
    code
}
fn tail(p: &Path) -> String {
    let s = String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).to_string();
    let l: Vec<&str> = s.lines().rev().take(4).collect();
    l.into_iter().rev().collect::<Vec<_>>().join(" / ")
}
fn read_json(p: &Path) -> Option<Value> {
    serde_json::from_str(&fs::read_to_string(p).ok()?).ok()
}
/// Lines of known_findings.txt that are about this property.
fn known_lines(prop: &str) -> Vec<String> {
    let s = fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter(|l| l.starts_with("KNOWN-FINDING:") && l.contains(&format!("property={} ", prop)))
        .map(|l| l.to_string())
        .collect()
}

pub fn replay(file: &Path) -> i32 {
    let v = match read_json(file) {
        Some(v) => v,
        None => {
            eprintln!("ERROR: cannot read {}", file.display());
            return 3;
        }
    };
    let prop = get_s(&v, "property").to_string();
    let dir = mktemp();
    let r = run_case(&prop, &v["case"], &dir, Duration::from_secs(180));
    let _ = fs::remove_dir_all(&dir);
    match verdict(&r) {
        Some((k, d, t)) => {
            println!("{}: {}\n  {}", prop, k, d);
            println!("  same kind: {}, same trace: {}", k == get_s(&v, "kind"), t == get_s(&v, "trace"));
            println!("VIOLATION property={} replay={}", prop, file.display());
            1
        }
        None => {
            println!("{}: the run in {} shows no violation on this tree", prop, file.display());
            0
        }
    }
}

/// Determinism: the same seeds on different numbers of workers must give the same traces.
pub fn selftest(props: &[String], runs: u64, seed: u64) -> i32 {
    let mut bad = 0;
    for prop in props {
        let mut digests = vec![];
        for workers in [1u64, 3, 8] {
            let dir = mktemp();
            let cs: Vec<Child> = (0..workers)
                .map(|w| {
                    self_cmd(&[
                        "worker", prop, "quick", &seed.to_string(), &w.to_string(), &workers.to_string(), &runs.to_string(),
                        "600", dir.to_str().unwrap(), "0",
                    ])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .spawn()
                    .unwrap()
                })
                .collect();
            for mut c in cs {
                let _ = c.wait();
            }
            let mut d = 0u64;
            let mut n = 0;
            for w in 0..workers {
                if let Some(v) = read_json(&dir.join(format!("w{}.json", w))) {
                    d = d.wrapping_add(u64::from_str_radix(get_s(&v, "digest"), 16).unwrap_or(0));
                    n += get_u(&v, "total");
                }
            }
            let _ = fs::remove_dir_all(&dir);
            digests.push((workers, n, d));
        }
        let same = digests.iter().all(|x| x.2 == digests[0].2 && x.1 == runs);
        println!("{} {}: {:?}", if same { "ok " } else { "BAD" }, prop, digests);
        let _ = std::io::stdout().flush();
        if !same {
            bad += 1;
        }
    }
    bad
}

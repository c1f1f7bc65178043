//! Several analysis sessions at the same time, each on a thread of its own, sharing the FBAS they
//! analyze. A seeded scheduler owns a baton: exactly one thread runs at a time, and it may be
//! preempted at every log record the code under test emits, at every allocation it makes, where it would wait
//! for another thread, and between any two calls.
use crate::common::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sess::{build, do_any, judge, FREE_OPS, OPS};
use fbas_analyzer::{Analysis, Fbas};
use serde_json::{json, Value};
use std::sync::{Arc, Condvar, Mutex};

pub struct Conc;

struct State {
    running: usize,
    done: Vec<bool>,
    rng: Rng,
    switch_in_1000: u64,
    alloc_in_10000: u64,
    switches: u64,
    waits: u64,
    points: u64,
    trace: u64,
}
pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}
impl Sched {
    fn new(n: usize, seed: u64, switch_in_1000: u64, alloc_in_10000: u64) -> Self {
        Sched {
            st: Mutex::new(State {
                running: usize::MAX,
                done: vec![false; n],
                rng: Rng::new(seed),
                switch_in_1000,
                alloc_in_10000,
                switches: 0,
                waits: 0,
                points: 0,
                trace: 0xcbf29ce484222325,
            }),
            cv: Condvar::new(),
        }
    }
    fn pick(st: &mut State) -> usize {
        let ready: Vec<usize> = (0..st.done.len()).filter(|&x| !st.done[x]).collect();
        if ready.is_empty() {
            return usize::MAX;
        }
        *st.rng.pick(&ready)
    }
    fn start(&self) {
        let mut st = self.st.lock().unwrap();
        st.running = Self::pick(&mut st);
        self.cv.notify_all();
    }
    fn wait_turn(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        while st.running != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    /// A preemption point of thread `me`.
    pub fn point(&self, me: usize) {
        self.maybe(me, |st| {
            let p = st.switch_in_1000;
            st.rng.chance(p, 1000)
        })
    }
    /// Thread `me` allocates memory.
    pub fn alloc_point(&self, me: usize) {
        self.maybe(me, |st| {
            let p = st.alloc_in_10000;
            p > 0 && st.rng.chance(p, 10000)
        })
    }
    fn maybe(&self, me: usize, go: impl FnOnce(&mut State) -> bool) {
        let mut st = self.st.lock().unwrap();
        st.points += 1;
        if go(&mut st) {
            let next = Self::pick(&mut st);
            self.hand(st, me, next);
        }
    }
    /// Thread `me` cannot go on until another thread did something.
    pub fn pass(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.waits += 1;
        let others: Vec<usize> = (0..st.done.len()).filter(|&x| !st.done[x] && x != me).collect();
        if !others.is_empty() {
            let next = *st.rng.pick(&others);
            self.hand(st, me, next);
        }
    }
    fn hand(&self, mut st: std::sync::MutexGuard<State>, me: usize, next: usize) {
        st.trace = (st.trace ^ (next as u64 + 1)).wrapping_mul(0x100000001b3);
        if next != me {
            st.switches += 1;
            st.running = next;
            self.cv.notify_all();
            while st.running != me {
                st = self.cv.wait(st).unwrap();
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[me] = true;
        st.running = Self::pick(&mut st);
        self.cv.notify_all();
    }
}

impl Family for Conc {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let sh = Shape {
            max_core: if tier == Tier::Thorough && r.chance(1, 4) { 12 } else { *r.pick(&[4, 6, 8, 9]) },
            duplicates: r.chance(1, 5),
            degenerate: r.chance(1, 5),
            metadata: false,
            huge: false,
        };
        // one or two FBASs; with two, some sessions work on the second one
        let n_f = if r.chance(2, 3) { 2 } else { 1 };
        let mut fs = vec![gen_fbas(&mut r, &sh)];
        if n_f == 2 {
            if r.chance(1, 2) {
                // nearly the same: same size, other thresholds
                let mut g = fs[0].clone();
                for _ in 0..r.range(1, 2) {
                    let x = r.below(g.n().max(1));
                    if let Some(n) = g.nodes.get_mut(x) {
                        n.q.t = r.range(1, 4) as u64;
                    }
                }
                fs.push(g);
            } else {
                fs.push(gen_fbas(&mut r, &sh));
            }
        }
        let n_tasks = r.range(2, 4);
        let tasks: Vec<Value> = (0..n_tasks)
            .map(|_| {
                let ops: Vec<Value> = (0..r.range(1, 5))
                    .map(|_| {
                        let int = if r.chance(1, 10) { r.range(1, 40) } else { 0 };
                        json!({"op": if r.chance(1, 8) { *r.pick(FREE_OPS) } else { *r.pick(OPS) }, "int": int})
                    })
                    .collect();
                json!({"f": r.below(n_f), "ops": ops, "entropy": r.next() >> 1})
            })
            .collect();
        json!({"sched": r.next() >> 1, "p": *r.pick(&[20, 100, 300, 700]), "pa": *r.pick(&[0, 3, 30, 300, 2000]), "fbas": fs, "tasks": tasks})
    }
    fn run(&self, case: &Value) -> Outcome {
        let mut o = Outcome::default();
        let fs: Vec<MF> = from(case, "fbas");
        let mut truths = vec![];
        for f in &fs {
            match f.truth(16) {
                Some(t) => truths.push(t),
                None => {
                    o.count("skipped: too large for the model", 1);
                    return o;
                }
            }
        }
        let fbas: Arc<Vec<Fbas>> = Arc::new(fs.iter().map(|f| build(f, "json")).collect());
        let tasks: Vec<Value> = from(case, "tasks");
        let sched = Arc::new(Sched::new(tasks.len(), get_u(case, "sched"), get_u(case, "p"), get_u(case, "pa")));
        let handles: Vec<_> = tasks
            .iter()
            .cloned()
            .enumerate()
            .map(|(me, task)| {
                let sched = sched.clone();
                let fbas = fbas.clone();
                spawn_seeded(get_u(&task, "entropy"), move || {
                    sched.wait_turn(me);
                    SCHED.with(|s| *s.borrow_mut() = Some((sched.clone(), me)));
                    set_points(true);
                    let mut answers = vec![];
                    match call0(|| Analysis::new(&fbas[get_u(&task, "f") as usize])) {
                        Ok(a) => {
                            for op in from::<Vec<Value>>(&task, "ops") {
                                at_sched(|s, me| s.point(me));
                                let r = call(get_u(&op, "int"), || do_any(&a, &fbas[get_u(&task, "f") as usize], get_s(&op, "op")).0);
                                answers.push((get_s(&op, "op").to_string(), r));
                            }
                        }
                        Err(m) => answers.push(("new".into(), Called::Panicked(m))),
                    }
                    set_points(false);
                    SCHED.with(|s| *s.borrow_mut() = None);
                    sched.finish(me);
                    answers
                })
            })
            .collect();
        sched.start();
        let answers: Vec<_> = handles.into_iter().map(|h| h.join().expect("harness: a session thread failed")).collect();
        let st = sched.st.lock().unwrap();
        o.count("preemptions at a log record, an allocation, a wait or between calls", st.switches);
        o.count("waits for another session", st.waits);
        o.steps = st.points;
        o.mix_trace(&format!("{:x}", st.trace));
        o.nontrivial = st.switches > 0 && truths.iter().any(|t| !t.mq.is_empty());
        drop(st);
        for (me, (task, answers)) in tasks.iter().zip(answers).enumerate() {
            let k = get_u(task, "f") as usize;
            for (op, a) in answers {
                match a {
                    Called::Done(a) => {
                        o.mix_trace(&format!("{}{}:{:?}", me, op, a));
                        if let Err(e) = judge(&op, &a, &truths[k], &fs[k]) {
                            // wrong without any other session as well: another property's business
                            if alone(&fs[k], &truths[k], task) {
                                o.fail("sessions interfere", format!("session {} ({} tasks in parallel), call {}: {}", me, tasks.len(), op, e));
                            } else {
                                o.count("wrong without other sessions, too", 1);
                            }
                        }
                    }
                    Called::Interrupted => {
                        o.count("fault: call interrupted by unwinding", 1);
                        o.mix_trace(&format!("{}{}!", me, op));
                    }
                    Called::Panicked(m) => {
                        o.mix_trace(&format!("{}{}P", me, op));
                        if alone(&fs[k], &truths[k], task) {
                            o.fail("sessions interfere", format!("session {}, call {} panicked: {}", me, op, m));
                        }
                    }
                }
            }
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = drop_from_array(case, "tasks", 1);
        for (k, t) in case["tasks"].as_array().into_iter().flatten().enumerate() {
            for v in drop_from_array(t, "ops", 1) {
                let mut w = case.clone();
                w["tasks"][k] = v;
                out.push(w);
            }
        }
        let fs: Vec<MF> = from(case, "fbas");
        for (k, f) in fs.iter().enumerate() {
            for (g, _) in shrink_fbas(f, &[]) {
                let mut w = case.clone();
                w["fbas"][k] = json!(g);
                out.push(w);
            }
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        (80_000, 6_000_000)
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["fbas_analyzer library (core types, analysis) on real threads"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec![
            "thread scheduling: one thread at a time, seeded baton passing at log records, allocations, waits and between calls",
            "entropy (hash map keys): seeded per session",
            "log sink: simulated, the seam for preemption and interruption",
        ]
    }
    fn rule(&self) -> &'static str {
        "seeded 1-2 FBASs (often nearly identical) x 2-4 concurrent sessions of 1-5 calls each x seeded preemption at log records and allocations x interruptions; non-trivial: at least one preemption and one FBAS with quorums; distinct: by hash of schedule and answers"
    }
}
/// Whether the task's answers are all right when it runs alone on a fresh thread.
fn alone(f: &MF, t: &Truth, task: &Value) -> bool {
    let (f, t, task) = (f.clone(), t.clone(), task.clone());
    on_fresh_thread(get_u(&task, "entropy"), move || {
        let fbas = build(&f, "json");
        let a = match call0(|| Analysis::new(&fbas)) {
            Ok(a) => a,
            Err(_) => return false,
        };
        for op in from::<Vec<Value>>(&task, "ops") {
            match call(get_u(&op, "int"), || do_any(&a, &fbas, get_s(&op, "op")).0) {
                Called::Done(x) => {
                    if judge(get_s(&op, "op"), &x, &t, &f).is_err() {
                        return false;
                    }
                }
                Called::Panicked(_) => return false,
                Called::Interrupted => {}
            }
        }
        true
    })
}

//! P10-P14: the network simulator, quorum set configurators and graphs.
use crate::common::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::sess::{build, do_op, judge, model_q};
use fbas_analyzer::simulation::monitors::DebugMonitor;
use fbas_analyzer::simulation::qsc::*;
use fbas_analyzer::simulation::{ChangeEffect, Event, Graph, QuorumSetConfigurator, SimulationMonitor, Simulator};
use fbas_analyzer::{Analysis, Fbas, QuorumSet};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Protocol,
    Agree,
    GraphBased,
    Random,
    Graphs,
}
pub struct Sim(pub Kind);

impl Family for Sim {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let mut c = match self.0 {
            Kind::Protocol => gen_protocol(&mut r),
            Kind::Agree => gen_agree(&mut r),
            Kind::GraphBased => gen_graph_based(&mut r, tier),
            Kind::Random => gen_random(&mut r),
            Kind::Graphs => gen_graphs(&mut r, tier),
        };
        c["entropy"] = json!(r.next() >> 1);
        c
    }
    fn run(&self, case: &Value) -> Outcome {
        let (k, case) = (self.0, case.clone());
        on_fresh_thread(get_u(&case, "entropy"), move || match k {
            Kind::Protocol => run_protocol(&case),
            Kind::Agree => run_agree(&case),
            Kind::GraphBased => run_graph_based(&case),
            Kind::Random => run_random(&case),
            Kind::Graphs => run_graphs(&case),
        })
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = vec![];
        for k in ["faults", "steps", "steps2"] {
            if case.get(k).is_some() {
                out.extend(drop_from_array(case, k, 0));
            }
        }
        for k in ["steps", "steps2"] {
            for (i, s) in case[k].as_array().into_iter().flatten().enumerate() {
                let v = get_u(s, "k");
                if v > 1 {
                    for nv in [v / 2, v - 1] {
                        let mut w = case.clone();
                        w[k][i]["k"] = json!(nv);
                        out.push(w);
                    }
                }
            }
        }
        if case.get("start").is_some() {
            for (g, _) in shrink_fbas(&from(case, "start"), &[]) {
                let mut w = case.clone();
                w["start"] = json!(g);
                out.push(w);
            }
        }
        if let Some(ls) = case.get("graph").and_then(|g| g.as_array()) {
            for i in 0..ls.len() {
                for v in drop_from_array(&json!({ "l": ls[i] }), "l", 0) {
                    let mut w = case.clone();
                    w["graph"][i] = v["l"].clone();
                    out.push(w);
                }
            }
        }
        for k in ["n", "m", "m0", "kk"] {
            let v = get_u(case, k);
            if v > 1 && self.0 == Kind::Graphs {
                for nv in [v / 2, v - 1] {
                    let mut w = case.clone();
                    w[k] = json!(nv);
                    if graph_params_ok(&w) {
                        out.push(w);
                    }
                }
            }
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        match self.0 {
            Kind::Graphs => (100_000, 6_000_000),
            Kind::GraphBased => (100_000, 6_000_000),
            _ => (200_000, 15_000_000),
        }
    }
    fn real(&self) -> Vec<&'static str> {
        match self.0 {
            Kind::Protocol => vec!["simulation::Simulator, DebugMonitor, Fbas"],
            Kind::Agree => vec!["simulation::Simulator, IdealQsc, SuperSafeQsc, Fbas, Analysis"],
            Kind::GraphBased => vec!["simulation::Simulator, AllNeighborsQsc, GlobalRankQsc, HigherTierNeighborsQsc, Graph, Fbas"],
            Kind::Random => vec!["simulation::Simulator, RandomQsc, Fbas"],
            Kind::Graphs => vec!["simulation::Graph (generators, ranks, shuffling, AS-relationship text)"],
        }
    }
    fn stub(&self) -> Vec<&'static str> {
        match self.0 {
            Kind::Protocol => vec!["quorum set configurator and monitor: scripted, may fail", "random numbers: seeded per run"],
            Kind::Agree => vec!["monitor: may fail", "random numbers (visiting order): seeded per run"],
            _ => vec!["random numbers: seeded per run"],
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Kind::Protocol => "seeded histories of growth and reevaluation calls x scripted configurators (settling, oscillating, lying) x seeded visiting orders x configurators and monitors that fail by unwinding; non-trivial: at least one round with two nodes; distinct: by hash of the complete event log",
            Kind::Agree => "seeded churn (growth, corrupted quorum sets, cut-off reevaluations, failing monitors) x seeded visiting orders, then quiet; non-trivial: at least three nodes; distinct: by hash of the event history",
            Kind::GraphBased => "seeded graph x configurator x two different histories of growth and reevaluation with different visiting orders; non-trivial: at least three nodes with links; distinct: by hash of graph, configurator and visiting orders",
            Kind::Random => "seeded sizes, thresholds and weights x growth histories x seeded random numbers; non-trivial: at least three nodes; distinct: by hash of the resulting quorum sets",
            Kind::Graphs => "seeded generator parameters x seeded random numbers; non-trivial: at least three nodes; distinct: by hash of the resulting graph",
        }
    }
}

// ------------------------------------------------------------------------------- P10: the protocol
#[derive(Clone, PartialEq, Debug)]
enum L {
    Conf(usize, usize, bool),
    ConfPanic(usize, usize),
    Ev(Event),
    EvPanic(Event),
}
struct Shared {
    log: RefCell<Vec<L>>,
    calls: Cell<u64>,
    events: Cell<u64>,
    fail_calls: Vec<u64>,
    fail_events: Vec<u64>,
}
struct Script {
    sh: Rc<Shared>,
    seed: u64,
    settle: u64,
    p: u64,
    lie: bool,
    sets: RefCell<BTreeMap<usize, MQ>>,
}
impl QuorumSetConfigurator for Script {
    fn configure(&self, node: usize, fbas: &mut Fbas) -> ChangeEffect {
        let c = self.sh.calls.get();
        self.sh.calls.set(c + 1);
        let n = fbas.number_of_nodes();
        if self.sh.fail_calls.contains(&c) {
            self.sh.log.borrow_mut().push(L::ConfPanic(node, n));
            std::panic::panic_any(Interrupt);
        }
        let mut r = Rng::new(mix(&[self.seed, c]));
        let change = c < self.settle && r.chance(self.p, 100);
        if change != (self.lie && r.chance(1, 3)) {
            // leave a mark
            let q = QuorumSet { threshold: c as usize + 1, validators: vec![node], inner_quorum_sets: vec![] };
            self.sets.borrow_mut().insert(node, model_q(&q));
            fbas.swap_quorum_set(node, q);
        }
        self.sh.log.borrow_mut().push(L::Conf(node, n, change));
        if change {
            ChangeEffect::Change
        } else {
            ChangeEffect::NoChange
        }
    }
}
struct Mon {
    sh: Rc<Shared>,
    debug: DebugMonitor,
}
impl SimulationMonitor for Mon {
    fn register_event(&self, e: Event) {
        let c = self.sh.events.get();
        self.sh.events.set(c + 1);
        self.debug.register_event(e);
        if self.sh.fail_events.contains(&c) {
            self.sh.log.borrow_mut().push(L::EvPanic(e));
            std::panic::panic_any(Interrupt);
        }
        self.sh.log.borrow_mut().push(L::Ev(e));
    }
}
fn gen_protocol(r: &mut Rng) -> Value {
    let steps: Vec<Value> = (0..r.range(1, 7))
        .map(|_| match r.below(5) {
            0 | 1 => json!({"op": "grow", "k": r.range(0, 6)}),
            2 | 3 => json!({"op": "reeval", "k": if r.chance(1, 40) { r.range(31, 150) } else { *r.pick(&[0, 1, 2, 3, 5, 9, 30]) }}),
            _ => json!({"op": "fork"}),
        })
        .collect();
    let mut faults = vec![];
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            faults.push(json!([*r.pick(&["conf", "event"]), r.range(0, 200)]));
        }
    }
    let n = if r.chance(1, 8) { 16 } else { r.range(0, 12) };
    json!({"n": n, "steps": steps, "faults": faults, "seed": r.next() >> 1,
        "settle": *r.pick(&[0, 10, 40, 100, 1_000_000]), "p": *r.pick(&[5, 30, 100]), "lie": r.chance(1, 4)})
}
/// Reads one reevaluation from the log. Ok(None): it was cut short by an injected failure.
struct Reader<'a> {
    log: &'a [L],
    pos: usize,
    orders: Vec<Vec<usize>>,
}
enum Cut {
    Wrong(String),
    Failed,
}
impl Reader<'_> {
    fn next(&mut self, what: &str) -> Result<L, Cut> {
        match self.log.get(self.pos) {
            None => Err(Cut::Wrong(format!("the history ends where {} should follow", what))),
            Some(l) => {
                self.pos += 1;
                match l {
                    L::ConfPanic(..) | L::EvPanic(_) => Err(Cut::Failed),
                    _ => Ok(l.clone()),
                }
            }
        }
    }
    fn event(&mut self, e: Event) -> Result<(), Cut> {
        let what = format!("{:?}", e);
        match self.next(&what)? {
            L::Ev(x) if x == e => Ok(()),
            x => Err(Cut::Wrong(format!("{:?} where {} should follow", x, what))),
        }
    }
    fn reeval(&mut self, n: usize, max: usize) -> Result<usize, Cut> {
        self.event(Event::StartGlobalReevaluation)?;
        let mut rounds = 0;
        let mut stable = false;
        while !stable && rounds < max {
            self.event(Event::StartGlobalReevaluationRound)?;
            let mut order = vec![];
            let mut any = false;
            for _ in 0..n {
                match self.next("the reevaluation of a node")? {
                    L::Conf(x, m, change) => {
                        if m != n || x >= n || order.contains(&x) {
                            return Err(Cut::Wrong(format!("node {} of {} reevaluated after {:?} in a round of {} nodes", x, m, order, n)));
                        }
                        order.push(x);
                        any |= change;
                        self.event(Event::QuorumSetChange(x, if change { ChangeEffect::Change } else { ChangeEffect::NoChange }))?;
                    }
                    x => return Err(Cut::Wrong(format!("{:?} after {:?} in a round of {} nodes", x, order, n))),
                }
            }
            self.orders.push(order);
            stable = !any;
            rounds += 1;
        }
        self.event(Event::FinishGlobalReevaluation(rounds))?;
        Ok(rounds)
    }
    fn grow(&mut self, n: &mut usize, k: usize) -> Result<(), Cut> {
        for _ in 0..k {
            match self.next("the configuration of the new node") {
                Ok(L::Conf(x, m, _)) if x == *n && m == *n + 1 => {}
                Ok(x) => return Err(Cut::Wrong(format!("{:?} where node {} should be configured", x, n))),
                Err(Cut::Failed) => {
                    *n += 1;
                    return Err(Cut::Failed);
                }
                Err(e) => return Err(e),
            }
            *n += 1;
            self.event(Event::AddNode(*n - 1))?;
            self.reeval(*n, *n)?;
        }
        Ok(())
    }
}
fn run_protocol(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let faults: Vec<(String, u64)> = from(case, "faults");
    let pick = |k: &str| faults.iter().filter(|f| f.0 == k).map(|f| f.1).collect::<Vec<_>>();
    let sh = Rc::new(Shared {
        log: RefCell::new(vec![]),
        calls: Cell::new(0),
        events: Cell::new(0),
        fail_calls: pick("conf"),
        fail_events: pick("event"),
    });
    let script = Rc::new(Script {
        sh: sh.clone(),
        seed: get_u(case, "seed"),
        settle: get_u(case, "settle"),
        p: get_u(case, "p"),
        lie: get_b(case, "lie"),
        sets: RefCell::new(BTreeMap::new()),
    });
    let mon = Rc::new(Mon { sh: sh.clone(), debug: DebugMonitor::new() });
    let mut n = get_u(case, "n") as usize;
    let mut sim = Simulator::new(Fbas::new_generic_unconfigured(n), script.clone(), mon.clone());
    let mut forks: Vec<(Simulator, BTreeMap<usize, MQ>, usize)> = vec![];
    let mut orders: Vec<Vec<Vec<usize>>> = vec![];
    for (k, step) in from::<Vec<Value>>(case, "steps").iter().enumerate() {
        let from_pos = sh.log.borrow().len();
        let arg = get_u(step, "k") as usize;
        let r = match get_s(step, "op") {
            "fork" => {
                // the copy goes on, the original must not change any more
                let orig = sim.clone();
                forks.push((orig, script.sets.borrow().clone(), n));
                continue;
            }
            "grow" => call(0, || {
                sim.simulate_growth(arg);
                None
            }),
            _ => call(0, || Some(sim.simulate_global_reevaluation(arg))),
        };
        let log = sh.log.borrow();
        let mut rd = Reader { log: &log[from_pos..], pos: 0, orders: vec![] };
        let expected = match get_s(step, "op") {
            "grow" => rd.grow(&mut n, arg).map(|_| None),
            _ => rd.reeval(n, arg).map(Some),
        };
        orders.push(rd.orders.clone());
        let left = rd.log.len() - rd.pos;
        let bad = match (expected, r) {
            (Err(Cut::Wrong(e)), _) => Some(e),
            (_, Called::Panicked(m)) => Some(format!("panicked: {}", m)),
            (Err(Cut::Failed), Called::Interrupted) => {
                o.count("fault: configurator or monitor failed", 1);
                (left > 0).then(|| "went on after a failure".to_string())
            }
            (Ok(want), Called::Done(got)) => {
                if want != got {
                    Some(format!("reported {:?} rounds, but there were {:?}", got, want))
                } else {
                    (left > 0).then(|| format!("went on with {:?}", rd.log[rd.pos]))
                }
            }
            _ => Some("a failure was swallowed".into()),
        };
        if let Some(e) = bad {
            o.fail("wrong course of events", format!("step {} ({}): {}", k, step, e));
            return o;
        }
    }
    // the visiting order is drawn anew in every round
    for os in &orders {
        if os.len() >= 5 && os[0].len() >= 8 && os.windows(2).all(|w| w[0] == w[1]) {
            o.fail("visiting order", format!("{} rounds in the same order {:?}", os.len(), os[0]));
        }
        // (two of 16! or so orders are the same once in a blue moon)
        if let Some(k) = os.windows(2).position(|w| w[0].len() >= 15 && w[0] == w[1]) {
            o.fail("visiting order", format!("rounds {} and {} are in the same order {:?}", k, k + 1, os[k]));
        }
        if os.len() >= 5 && os[0].len() >= 8 && os.iter().all(|x| x.windows(2).all(|w| w[0] < w[1])) {
            o.fail("visiting order", "every round goes by node ID".to_string());
        }
    }
    let evs: Vec<Event> = sh
        .log
        .borrow()
        .iter()
        .filter_map(|l| match l {
            L::Ev(e) | L::EvPanic(e) => Some(*e),
            _ => None,
        })
        .collect();
    if mon.debug.events_clone() != evs || *mon.debug.events_ref() != evs {
        o.fail("recorded events", "the recording monitor has other events than were registered".to_string());
    }
    forks.push((sim, script.sets.borrow().clone(), n));
    for (k, (s, sets, n)) in forks.into_iter().enumerate() {
        let f = s.finalize();
        if f.number_of_nodes() != n {
            o.fail("wrong network", format!("copy {} has {} nodes instead of {}", k, f.number_of_nodes(), n));
            break;
        }
        for x in 0..n {
            let got = model_q(&f.get_quorum_set(x).unwrap_or_default());
            let want = sets.get(&x).cloned().unwrap_or_default();
            if got != want {
                o.fail("wrong network", format!("copy {}, node {}: {:?} instead of {:?}", k, x, got, want));
                break;
            }
        }
    }
    o.mix_trace(&format!("{:?}", sh.log.borrow()));
    o.steps = sh.log.borrow().len() as u64;
    o.nontrivial = orders.iter().flatten().any(|x| x.len() >= 2);
    o
}

// --------------------------------------------------------------------- P11: everybody ends up equal
fn gen_steps(r: &mut Rng, max: usize, corrupt: bool) -> Vec<Value> {
    (0..r.range(1, 6))
        .map(|_| match r.below(if corrupt { 6 } else { 4 }) {
            0 | 1 | 2 => json!({"op": "grow", "k": r.range(0, max)}),
            3 => json!({"op": "reeval", "k": r.range(0, 3)}),
            _ => {
                let k = r.range(1, 4);
                json!({"op": "corrupt", "k": k, "seed": r.next() >> 1})
            }
        })
        .collect()
}
fn gen_agree(r: &mut Rng) -> Value {
    let mut faults = vec![];
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            faults.push(json!(["event", r.range(0, 150)]));
        }
    }
    let start = if r.chance(1, 4) {
        let sh = Shape { max_core: 5, duplicates: false, degenerate: true, metadata: false, huge: false };
        gen_fbas(r, &sh)
    } else {
        MF::default()
    };
    json!({"qsc": *r.pick(&["ideal", "safe"]), "start": start, "steps": gen_steps(r, 8, true), "faults": faults})
}
pub fn threshold_67(n: usize) -> u64 {
    // the smallest t with 3t >= 2n + 1
    (2 * n as u64 + 1).div_ceil(3)
}
fn run_agree(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let kind = get_s(case, "qsc").to_string();
    let qsc: Rc<dyn QuorumSetConfigurator> = if kind == "ideal" { Rc::new(IdealQsc::new()) } else { Rc::new(SuperSafeQsc::new()) };
    let faults: Vec<(String, u64)> = from(case, "faults");
    let sh = Rc::new(Shared {
        log: RefCell::new(vec![]),
        calls: Cell::new(0),
        events: Cell::new(0),
        fail_calls: vec![],
        fail_events: faults.iter().map(|f| f.1).collect(),
    });
    let mon = Rc::new(Mon { sh: sh.clone(), debug: DebugMonitor::new() });
    let start: MF = from(case, "start");
    let mut sim = Simulator::new(build(&start, "json"), qsc.clone(), mon.clone());
    let expected = |n: usize| MQ { t: if kind == "ideal" { threshold_67(n) } else { n as u64 }, v: (0..n).collect(), i: vec![] };
    let agreed = |f: &Fbas| -> Result<(), String> {
        let n = f.number_of_nodes();
        for x in 0..n {
            let q = model_q(&f.get_quorum_set(x).unwrap_or_default());
            if q != expected(n) {
                return Err(format!("node {} of {} has {:?}", x, n, q));
            }
        }
        Ok(())
    };
    let mut panicked = None;
    for (k, step) in from::<Vec<Value>>(case, "steps").iter().enumerate() {
        let arg = get_u(step, "k") as usize;
        let mut clean = true;
        let r = match get_s(step, "op") {
            "grow" => call(0, || sim.simulate_growth(arg)),
            "reeval" => call(0, || {
                sim.simulate_global_reevaluation(arg);
            }),
            _ => {
                clean = false;
                let mut f = sim.clone().finalize();
                let mut r = Rng::new(get_u(step, "seed"));
                let n = f.number_of_nodes();
                for _ in 0..arg.min(n) {
                    let mut v = r.sample(n, 3);
                    v.push(n + 3);
                    let q = QuorumSet { threshold: r.range(0, 4), validators: v, inner_quorum_sets: vec![] };
                    f.swap_quorum_set(r.below(n), q);
                    o.count("fault: corrupted quorum set", 1);
                }
                sim = Simulator::new(f, qsc.clone(), mon.clone());
                Called::Done(())
            }
        };
        match r {
            Called::Done(()) => {
                // growth lets everybody catch up after every new node
                if clean && get_s(step, "op") == "grow" && arg > 0 {
                    let f = sim.clone().finalize();
                    // a single node has only been configured once, two rounds may be needed otherwise
                    if f.number_of_nodes() >= 1 {
                        if let Err(e) = agreed(&f) {
                            o.fail("no agreement after growth", format!("step {}: {}", k, e));
                        }
                    }
                }
            }
            Called::Interrupted => o.count("fault: monitor failed", 1),
            Called::Panicked(m) => panicked = Some(m),
        }
        if let Some(m) = panicked {
            o.fail("panic", format!("step {} ({}): {}", k, step, m));
            return o;
        }
        if !o.ok() {
            return o;
        }
    }
    // faults stop
    let mut quiet = Simulator::new(sim.finalize(), qsc, Rc::new(DebugMonitor::new()));
    let r = call0(|| (quiet.simulate_global_reevaluation(1000), quiet.simulate_global_reevaluation(1000)));
    let f = quiet.finalize();
    let n = f.number_of_nodes();
    match r {
        Err(m) => o.fail("panic", m),
        Ok((a, b)) => {
            if a > 2 || b != 1 {
                o.fail("does not settle", format!("{} rounds once faults stopped, then {} more", a, b));
            }
            if let Err(e) = agreed(&f) {
                o.fail("no agreement", e);
            }
        }
    }
    if o.ok() && (1..=9).contains(&n) {
        let m = MF { nodes: (0..n).map(|x| MNode { pk: format!("n{}", x), q: expected(n), ..Default::default() }).collect() };
        let t = m.truth(10).unwrap();
        let smallest = t.mbs.iter().map(|s| s.len()).min().unwrap_or(0);
        let tolerated = if kind == "ideal" { (n - 1) / 3 } else { 0 };
        if !t.intersection || smallest != tolerated + 1 {
            o.fail("weak network", format!("{} nodes tolerate {} failures", n, smallest));
        }
        for op in ["hqi", "mbs", "mss"] {
            match call0(|| do_op(&Analysis::new(&f), op).0) {
                Ok(a) => {
                    if let Err(e) = judge(op, &a, &t, &m) {
                        o.fail("weak network", e);
                    }
                }
                Err(e) => o.fail("panic", e),
            }
        }
    }
    o.mix_trace(&format!("{}{:?}", kind, sh.log.borrow()));
    o.steps = sh.log.borrow().len() as u64;
    o.nontrivial = n >= 3;
    o
}

// ------------------------------------------------------------------- P12: graph-based configurators
pub fn gen_links(r: &mut Rng, max: usize) -> Vec<Vec<usize>> {
    let n = r.range(1, max);
    let mut l: Vec<Vec<usize>> = vec![vec![]; n];
    let p = *r.pick(&[5, 15, 30, 60, 95]);
    let undirected = r.chance(2, 3);
    let hubs = r.range(0, 4);
    for a in 0..n {
        for b in 0..n {
            if a == b || (undirected && b < a) {
                continue;
            }
            let pp = if a < hubs || b < hubs { (p * 3).min(100) } else { p };
            if r.chance(pp, 100) {
                l[a].push(b);
                if undirected {
                    l[b].push(a);
                }
            }
        }
    }
    for x in l.iter_mut() {
        r.shuffle(x);
    }
    l
}
/// A graph in which all nodes are alike (so that no score is above the average).
fn gen_regular(r: &mut Rng) -> Vec<Vec<usize>> {
    let n = *r.pick(&[2, 4, 8, 8, 16]);
    let steps: Vec<usize> = (1..n).filter(|_| r.chance(1, 3)).collect();
    let take = [1, 2, 4, 8][r.below(4)].min(steps.len());
    let copies = if n <= 8 && r.chance(1, 4) { 2 } else { 1 };
    (0..n * copies).map(|x| steps[..take].iter().map(|d| x / n * n + (x + d) % n).collect()).collect()
}
fn gen_graph_based(r: &mut Rng, tier: Tier) -> Value {
    let regular = r.chance(1, 25);
    let links = if regular { gen_regular(r) } else { gen_links(r, if tier == Tier::Thorough { 40 } else { 24 }) };
    let qsc = if regular && r.chance(1, 2) { "rank" } else { *r.pick(&["all", "rank", "tier", "sym"]) };
    let n = if r.chance(2, 3) { links.len() } else { r.range(1, links.len()) };
    let pre = if qsc != "sym" && r.chance(1, 4) { r.range(1, n) } else { 0 };
    let preset: Vec<Value> = (0..pre)
        .map(|_| if r.chance(1, 2) { json!(null) } else { json!(MQ { t: 1, v: vec![r.below(n)], i: vec![] }) })
        .collect();
    let mut split = || {
        let mut left = n - pre;
        let mut s = vec![];
        while left > 0 {
            if r.chance(1, 4) {
                s.push(json!({"op": "reeval", "k": r.range(0, 3)}));
            }
            let k = r.range(1, left);
            s.push(json!({"op": "grow", "k": k}));
            left -= k;
        }
        s
    };
    let (s1, s2) = (split(), split());
    let rel = if r.chance(1, 2) { json!(null) } else { json!(*r.pick(&[0.0, 0.25, 0.5, 0.51, 0.66, 0.75, 1.0])) };
    json!({"graph": links, "qsc": qsc, "relative": rel, "preset": preset, "steps": s1, "steps2": s2, "entropy2": r.next() >> 1})
}
fn thr(n: usize, rel: Option<f64>) -> u64 {
    match rel {
        None => threshold_67(n),
        Some(x) => ((x * n as f64).ceil() as u64).max(1),
    }
}
fn make_qsc(kind: &str, g: Graph, rel: Option<f64>) -> Rc<dyn QuorumSetConfigurator> {
    match (kind, rel) {
        ("all", None) => Rc::new(AllNeighborsQsc::new_67p(g)),
        ("all", Some(x)) => Rc::new(AllNeighborsQsc::new_relative(g, x)),
        ("rank", None) => Rc::new(GlobalRankQsc::new_67p(g)),
        ("rank", Some(x)) => Rc::new(GlobalRankQsc::new_relative(g, x)),
        (k, None) => Rc::new(HigherTierNeighborsQsc::new_67p(g, k == "sym")),
        (k, Some(x)) => Rc::new(HigherTierNeighborsQsc::new_relative(g, x, k == "sym")),
    }
}
fn run_graph_based(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let links: Vec<Vec<usize>> = from(case, "graph");
    let kind = get_s(case, "qsc").to_string();
    let rel: Option<f64> = from(case, "relative");
    let preset: Vec<Option<MQ>> = from(case, "preset");
    let g = Graph::new(links.clone());
    let mut results: Vec<Vec<MQ>> = vec![];
    for (which, steps) in ["steps", "steps2"].iter().enumerate() {
        let (kind, links, steps, preset) = (kind.clone(), links.clone(), from::<Vec<Value>>(case, steps), preset.clone());
        let work = move || {
            let g = Graph::new(links);
            let mon = Rc::new(DebugMonitor::new());
            let mut f = Fbas::new_generic_unconfigured(preset.len());
            for (x, q) in preset.iter().enumerate() {
                if let Some(q) = q {
                    f.swap_quorum_set(x, QuorumSet { threshold: q.t as usize, validators: q.v.clone(), inner_quorum_sets: vec![] });
                }
            }
            let r = call0(|| {
                let mut sim = Simulator::new(f, make_qsc(&kind, g, rel), mon.clone());
                for s in &steps {
                    let k = get_u(s, "k") as usize;
                    match get_s(s, "op") {
                        "grow" => sim.simulate_growth(k),
                        _ => {
                            sim.simulate_global_reevaluation(k);
                        }
                    }
                }
                let a = sim.simulate_global_reevaluation(10_000);
                let b = sim.simulate_global_reevaluation(10_000);
                let f = sim.finalize();
                let qs: Vec<MQ> = (0..f.number_of_nodes()).map(|x| model_q(&f.get_quorum_set(x).unwrap_or_default())).collect();
                (qs, a, b)
            });
            (r, mon.events_clone())
        };
        let (r, events) = if which == 0 { work() } else { on_fresh_thread(get_u(case, "entropy2"), work) };
        o.steps += events.len() as u64;
        o.mix_trace(&format!("{:?}", events));
        match r {
            Err(m) => {
                o.fail("panic", format!("{} after {:?}", m, case[["steps", "steps2"][which]]));
                return o;
            }
            Ok((qs, a, b)) => {
                if a >= 10_000 || b != 1 {
                    o.fail("does not settle", format!("{} rounds, then {} more", a, b));
                    return o;
                }
                results.push(qs);
            }
        }
    }
    if results[0].len() != results[1].len() {
        // only after minimising took nodes away from one history
        return o;
    }
    if results[0] != results[1] {
        let x = (0..results[0].len()).find(|&x| results[0][x] != results[1][x]).unwrap();
        o.fail(
            "depends on the schedule",
            format!("node {}: {:?} after one history and {:?} after the other", x, results[0][x], results[1][x]),
        );
        return o;
    }
    let n = results[0].len();
    if let Some(e) = judge_graph_based(&kind, &links, &g, rel, &preset, &results[0], n) {
        o.fail("wrong quorum sets", e);
    }
    o.nontrivial = n >= 3 && links.iter().any(|l| !l.is_empty());
    o
}
pub fn judge_graph_based(kind: &str, links: &[Vec<usize>], g: &Graph, rel: Option<f64>, preset: &[Option<MQ>], got: &[MQ], n: usize) -> Option<String> {
    let mut connected = Set::new();
    for (a, l) in links.iter().enumerate() {
        if !l.is_empty() {
            connected.insert(a);
            connected.extend(l.iter().copied());
        }
    }
    let scores = g.get_rank_scores();
    let mk = |mut v: Vec<usize>| {
        v.sort_unstable();
        MQ { t: thr(v.len(), rel), v, i: vec![] }
    };
    let tiers = |x: usize| -> Vec<usize> {
        let higher: Vec<usize> = links[x].iter().copied().filter(|&y| scores[y] >= 2.0 * scores[x]).collect();
        if !higher.is_empty() {
            return higher;
        }
        links[x].iter().copied().filter(|&y| scores[x] < 2.0 * scores[y]).collect()
    };
    let kept = |x: usize| preset.get(x).and_then(|q| q.clone()).filter(|q| *q != MQ::default());
    let mut want: Vec<MQ> = vec![];
    match kind {
        "all" => {
            for x in 0..n {
                want.push(if let Some(q) = kept(x) {
                    q
                } else if connected.contains(&x) {
                    let mut v = links[x].clone();
                    v.push(x);
                    mk(v)
                } else {
                    MQ::default()
                });
            }
        }
        "rank" => {
            let avg = scores.iter().sum::<f64>() / scores.len() as f64;
            // exact arithmetic when all scores are dyadic and their number is a power of two; a tolerance otherwise
            let exact = scores.len().is_power_of_two() && scores.iter().all(|s| *s < 1e3 && (s * 1073741824.0).fract() == 0.0);
            let near = |y: &usize| !exact && (scores[*y] - avg).abs() < 1e-9;
            // all configured nodes have the same quorum set
            let mut common: Option<&MQ> = None;
            for x in 0..n {
                if let Some(q) = kept(x) {
                    if got[x] != q {
                        return Some(format!("node {}: configured {:?} was replaced by {:?}", x, q, got[x]));
                    }
                } else if links[x].is_empty() {
                    if got[x] != MQ::default() {
                        return Some(format!("node {} has no links but {:?}", x, got[x]));
                    }
                } else {
                    if *common.get_or_insert(&got[x]) != &got[x] {
                        return Some(format!("nodes have different quorum sets: {:?} and {:?}", common, got[x]));
                    }
                    let have: Set = got[x].v.iter().copied().collect();
                    let must: Set = (0..scores.len()).filter(|y| scores[*y] > avg && !near(y)).collect();
                    let may: Set = (0..scores.len()).filter(|y| scores[*y] > avg || near(y)).collect();
                    if !must.is_subset(&have) || !have.is_subset(&may) || have.len() != got[x].v.len() {
                        return Some(format!("node {} has {:?}, nodes above average are {:?}", x, got[x], must));
                    }
                    if got[x].t != thr(have.len(), rel) || !got[x].i.is_empty() {
                        return Some(format!("node {} has {:?}", x, got[x]));
                    }
                }
            }
            return None;
        }
        "tier" => {
            for x in 0..n {
                want.push(if connected.contains(&x) {
                    let mut v = tiers(x);
                    v.push(x);
                    mk(v)
                } else {
                    kept(x).unwrap_or_default()
                });
            }
        }
        _ => {
            // the least configuration in which mutual trust is closed
            let mut v: Vec<Set> = vec![Set::new(); n];
            loop {
                let mut next = v.clone();
                for x in (0..n).filter(|x| connected.contains(x)) {
                    let mut s = Set::new();
                    for y in tiers(x) {
                        s.insert(y);
                        if y < n && v[y].contains(&x) {
                            s.extend(v[y].iter().copied());
                        }
                    }
                    s.insert(x);
                    next[x] = s;
                }
                if next == v {
                    break;
                }
                v = next;
            }
            for (x, s) in v.iter().enumerate() {
                want.push(if connected.contains(&x) { mk(s.iter().copied().collect()) } else { MQ::default() });
            }
        }
    }
    (0..n).find(|&x| got[x] != want[x]).map(|x| format!("node {}: {:?} instead of {:?}", x, got[x], want[x]))
}

// ----------------------------------------------------------------------------- P13: random choices
fn gen_random(r: &mut Rng) -> Value {
    let n = if r.chance(1, 100) { r.range(60, 150) } else { r.range(0, 10) };
    let weights = match r.below(3) {
        0 => json!(null),
        _ => json!((0..r.range(0, 20)).map(|_| *r.pick(&[0, 0, 1, 1, 2, 5, 100])).collect::<Vec<usize>>()),
    };
    if r.chance(1, 600) {
        return json!({"spread": 8, "n": r.range(260, 500), "size": r.range(2, 6)});
    }
    if r.chance(1, 40) {
        let n = r.range(4, 12);
        // nodes without a weight of their own count as one
        let given = if r.chance(1, 2) { n } else { r.range(0, n) };
        let w: Vec<usize> = (0..given).map(|_| *r.pick(&[1, 1, 2, 3, 5, 20])).collect();
        return json!({"stat": 150, "n": n, "weights": w, "size": 2, "threshold": null});
    }
    let preset: Vec<Value> = (0..n)
        .map(|_| {
            if r.chance(3, 4) {
                json!(null)
            } else {
                let k = r.range(1, 4);
                json!(MQ { t: r.range(1, 3) as u64, v: r.sample(n, k), i: vec![] })
            }
        })
        .collect();
    let thr = if r.chance(1, 2) { json!(null) } else { json!(r.range(1, 6)) };
    json!({"size": r.range(0, 9), "threshold": thr, "weights": weights, "preset": preset, "steps": gen_steps(r, 6, false)})
}
fn run_random(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let size = get_u(case, "size") as usize;
    let t: Option<usize> = from(case, "threshold");
    let weights: Option<Vec<usize>> = from(case, "weights");
    if get_u(case, "stat") > 0 {
        return run_random_stat(case);
    }
    if get_u(case, "spread") > 0 {
        return run_random_spread(case);
    }
    let preset: Vec<Option<MQ>> = from(case, "preset");
    let n0 = preset.len();
    let mut f = Fbas::new_generic_unconfigured(n0);
    for (x, q) in preset.iter().enumerate() {
        if let Some(q) = q {
            f.swap_quorum_set(x, QuorumSet { threshold: q.t as usize, validators: q.v.clone(), inner_quorum_sets: vec![] });
        }
    }
    let steps: Vec<Value> = from(case, "steps");
    let qsc = Rc::new(RandomQsc::new(size, t, weights.clone()));
    let mon = Rc::new(DebugMonitor::new());
    let r = call0(|| {
        let mut sim = Simulator::new(f, qsc.clone(), mon.clone());
        let mut first = None;
        for (k, s) in steps.iter().enumerate() {
            let a = get_u(s, "k") as usize;
            match get_s(s, "op") {
                "grow" => sim.simulate_growth(a),
                _ => {
                    sim.simulate_global_reevaluation(a);
                }
            }
            if k == 0 && get_s(s, "op") == "reeval" && a > 0 {
                first = Some(sim.clone().finalize());
            }
        }
        let before = sim.clone().finalize();
        sim.simulate_global_reevaluation(1);
        let f = sim.clone().finalize();
        sim.simulate_global_reevaluation(2);
        (first, before, f, sim.finalize())
    });
    let (first, before, f, later) = match r {
        Ok(x) => x,
        Err(m) => {
            o.fail("panic", m);
            return o;
        }
    };
    let n = f.number_of_nodes();
    let q = |f: &Fbas, x: usize| model_q(&f.get_quorum_set(x).unwrap_or_default());
    for x in 0..n {
        let got = q(&f, x);
        let start = preset.get(x).and_then(|q| q.clone()).unwrap_or_default();
        let uniq: Set = got.v.iter().copied().collect();
        let fail = |o: &mut Outcome, e: &str| o.fail("bad random quorum set", format!("node {} of {} (size {}, threshold {:?}, started with {:?}) has {:?}: {}", x, n, size, t, start, got, e));
        if q(&later, x) != got {
            fail(&mut o, "changes although it is complete");
        }
        if start.v.len() >= size.max(1) {
            if got != start {
                fail(&mut o, "was complete before");
            }
            continue;
        }
        let want = size.min(n).max(start.v.len()).max(1);
        if got.v.len() != want || uniq.len() != want {
            fail(&mut o, "has the wrong number of validators");
        }
        if uniq.iter().any(|&y| y >= n) || !got.i.is_empty() {
            fail(&mut o, "has validators that don't exist");
        }
        if !start.v.iter().all(|y| uniq.contains(y)) || (start.v.is_empty() && !uniq.contains(&x)) {
            fail(&mut o, "lacks the node itself or a validator it had");
        }
        let threshold = match t {
            Some(t) => t as u64,
            None => threshold_67(size.min(n)),
        };
        if size >= 2 && n >= 1 && got.t != threshold {
            fail(&mut o, "has the wrong threshold");
        }
        // growing keeps what was there
        if x < before.number_of_nodes() && !q(&before, x).v.iter().all(|y| uniq.contains(y)) {
            fail(&mut o, "lost validators");
        }
    }
    // nodes of weight 0 are not chosen as long as there are others
    if let (Some(f), Some(w)) = (&first, &weights) {
        let n = f.number_of_nodes();
        let weight = |y: usize| w.get(y).copied().unwrap_or(1);
        for x in 0..n.min(n0) {
            let start = preset[x].clone().unwrap_or_default();
            let have: Set = start.v.iter().copied().chain(if start.v.is_empty() { Some(x) } else { None }).collect();
            let positive = (0..n).filter(|y| !have.contains(y) && weight(*y) > 0).count();
            let needed = size.min(n).saturating_sub(have.len());
            let chosen: Vec<usize> = q(f, x).v.into_iter().filter(|y| !have.contains(y)).collect();
            let zero = chosen.iter().filter(|&&y| weight(y) == 0).count();
            if zero > needed.saturating_sub(positive) {
                o.fail("bad random quorum set", format!("node {} of {} chose {:?} with weights {:?}", x, n, chosen, w));
            }
            if zero > 0 {
                o.count("only nodes of weight 0 were left", 1);
            }
        }
    }
    let all: Vec<MQ> = (0..n).map(|x| q(&later, x)).collect();
    o.mix_trace(&format!("{:?}", all));
    o.steps = mon.events_clone().len() as u64;
    o.nontrivial = n >= 3 && size >= 2;
    o
}
/// In a large network without weights, all nodes get their share of the choices.
fn run_random_spread(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let (n, reps) = (get_u(case, "n") as usize, get_u(case, "spread"));
    let size = if case.get("size").is_some() { get_u(case, "size") as usize } else { 2 };
    if n < 3 || size < 2 || n < 20 * size {
        return o;
    }
    let chosen = (size - 1) as f64;
    let mut counts = vec![0f64; 16];
    let bucket = |y: usize| y * 16 / n;
    let r = call0(|| {
        for _ in 0..reps {
            let mut sim = Simulator::new(Fbas::new_generic_unconfigured(n), Rc::new(RandomQsc::new_simple(size)), Rc::new(DebugMonitor::new()));
            sim.simulate_global_reevaluation(1);
            let f = sim.finalize();
            for x in 0..n {
                for y in f.get_quorum_set(x).unwrap_or_default().validators {
                    if y != x && y < n {
                        counts[bucket(y)] += 1.0;
                    }
                }
            }
        }
    });
    if let Err(m) = r {
        o.fail("panic", m);
        return o;
    }
    for b in 0..16 {
        let share = (0..n).filter(|&y| bucket(y) == b).count() as f64 / n as f64;
        let e = share * (n as u64 * reps) as f64 * chosen;
        if e >= 30.0 && (counts[b] - e).abs() > 8.0 * e.sqrt() + 2.0 {
            o.fail("choice does not follow the weights", format!("of {} nodes, those in sixteenth {} were chosen {} times, expected {:.1}", n, b, counts[b], e));
        }
    }
    o.count("choices in large networks", n as u64 * reps);
    o.mix_trace(&format!("{:?}", counts));
    o.steps = reps * n as u64;
    o.nontrivial = true;
    o
}
/// How often nodes are chosen follows their weights (7 sigma over a few thousand choices).
fn run_random_stat(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let n = get_u(case, "n") as usize;
    let given: Vec<usize> = from(case, "weights");
    let w: Vec<usize> = (0..n).map(|x| given.get(x).copied().unwrap_or(1)).collect();
    if n < 3 || get_u(case, "size") != 2 {
        return o;
    }
    let qsc = Rc::new(RandomQsc::new(2, None, Some(given.clone())));
    let reps = get_u(case, "stat");
    let mut counts = vec![0f64; n];
    let r = call0(|| {
        for _ in 0..reps {
            let mut sim = Simulator::new(Fbas::new_generic_unconfigured(n), qsc.clone(), Rc::new(DebugMonitor::new()));
            sim.simulate_global_reevaluation(1);
            let f = sim.finalize();
            for x in 0..n {
                for y in f.get_quorum_set(x).unwrap_or_default().validators {
                    if y != x && y < n {
                        counts[y] += 1.0;
                    }
                }
            }
        }
    });
    if let Err(m) = r {
        o.fail("panic", m);
        return o;
    }
    let total: usize = w.iter().sum();
    for y in 0..n {
        let (mut e, mut var) = (0.0, 0.0);
        for x in (0..n).filter(|&x| x != y) {
            let p = w[y] as f64 / (total - w[x]) as f64;
            e += p * reps as f64;
            var += p * (1.0 - p) * reps as f64;
        }
        if e >= 30.0 && (counts[y] - e).abs() > 7.0 * var.sqrt() + 1.0 {
            o.fail("choice does not follow the weights", format!("node {} of weights {:?} was chosen {} times in {} rounds, expected {:.1}", y, given, counts[y], reps, e));
        }
    }
    o.count("statistical runs", 1);
    o.mix_trace(&format!("{:?}", counts));
    o.steps = reps * n as u64;
    o.nontrivial = true;
    o
}

// --------------------------------------------------------------------------------- P14: graphs
fn graph_params_ok(c: &Value) -> bool {
    let (n, m, m0, k) = (get_u(c, "n"), get_u(c, "m"), get_u(c, "m0"), get_u(c, "kk"));
    match get_s(c, "gen") {
        "ba" => 0 < m && m <= m0 && m0 <= n,
        "ws" => k % 2 == 0 && k < n,
        _ => true,
    }
}
fn gen_graphs(r: &mut Rng, tier: Tier) -> Value {
    let big = if tier == Tier::Thorough { 120 } else { 60 };
    match r.below(8) {
        0 | 1 | 2 => {
            let n = if r.chance(1, 20) { 400 } else { r.range(1, big) };
            let m0 = r.range(1, n.min(8));
            let m = r.range(1, m0);
            json!({"gen": "ba", "n": n, "m0": m0, "m": if n == 400 { 1 } else { m }})
        }
        3 | 4 | 5 => {
            let n = r.range(1, big);
            let k = 2 * r.range(0, ((n - 1) / 2).min(6));
            json!({"gen": "ws", "n": n, "kk": k, "beta": *r.pick(&[0.0, 0.0, 0.05, 0.3, 0.5, 1.0])})
        }
        6 if r.chance(1, 60) => json!({"gen": "wsstat", "n": r.range(20, 32), "kk": *r.pick(&[2, 4]), "beta": 0.5, "reps": 200}),
        6 => json!({"gen": "mesh", "tiers": (0..r.range(1, 4)).map(|_| r.range(1, 6)).collect::<Vec<_>>()}),
        _ if r.chance(1, 40) => {
            // many links to one node
            let n = 300 + r.range(0, 40);
            let hub = r.below(n);
            json!({"gen": "links", "graph": (0..n).map(|x| if x == hub { (0..n).filter(|&y| y != hub).collect() } else { vec![hub] }).collect::<Vec<Vec<usize>>>()})
        }
        _ => json!({"gen": "links", "graph": gen_links(r, 25)}),
    }
}
/// Links of a graph, read from its text form.
pub fn links_of(g: &Graph) -> Result<Vec<Vec<usize>>, String> {
    let s = Graph::to_as_rel_string(g, None).map_err(|e| e.to_string())?;
    let mut l: Vec<Vec<usize>> = vec![vec![]; g.number_of_nodes()];
    for line in s.lines() {
        let p: Vec<&str> = line.split('|').collect();
        let (a, b) = match (p.first().and_then(|x| x.parse::<usize>().ok()), p.get(1).and_then(|x| x.parse::<usize>().ok())) {
            (Some(a), Some(b)) if a < l.len() && b < l.len() && p.len() == 3 => (a, b),
            _ => return Err(format!("bad line {:?}", line)),
        };
        l[a].push(b);
        match p[2] {
            "0" => l[b].push(a),
            "-1" => {}
            _ => return Err(format!("bad line {:?}", line)),
        }
    }
    for x in l.iter_mut() {
        x.sort_unstable();
    }
    Ok(l)
}
fn degrees(l: &[Vec<usize>]) -> (Vec<usize>, Vec<usize>) {
    let mut ins = vec![0; l.len()];
    for x in l {
        for &y in x {
            ins[y] += 1;
        }
    }
    (ins, l.iter().map(|x| x.len()).collect())
}
/// Colour refinement: the same for isomorphic graphs.
fn colours(l: &[Vec<usize>]) -> Vec<u64> {
    let n = l.len();
    let mut c = vec![1u64; n];
    let mut rev: Vec<Vec<usize>> = vec![vec![]; n];
    for (a, x) in l.iter().enumerate() {
        for &b in x {
            rev[b].push(a);
        }
    }
    for _ in 0..n.min(12) {
        c = (0..n)
            .map(|x| {
                let mut o: Vec<u64> = l[x].iter().map(|&y| c[y]).collect();
                let mut i: Vec<u64> = rev[x].iter().map(|&y| c[y]).collect();
                o.sort_unstable();
                i.sort_unstable();
                o.push(7);
                o.extend(i);
                mix(&[c[x], mix(&o)])
            })
            .collect();
    }
    c.sort_unstable();
    c
}
fn run_graphs(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    if !graph_params_ok(case) {
        return o;
    }
    let r = if get_s(case, "gen") == "wsstat" { call0(|| rewiring_problems(case)) } else { call0(|| graph_problems(case)) };
    match r {
        Err(m) => o.fail("panic", m),
        Ok(Err((k, d))) => o.fail(&k, d),
        Ok(Ok(t)) => {
            o.mix_trace(&t);
            o.steps = t.len() as u64;
        }
    }
    o.nontrivial = get_u(case, "n") >= 3 || case.get("tiers").is_some() || case.get("graph").is_some();
    if case.get("n").is_none() {
        o.count("given or fixed graphs", 1);
    }
    o
}
type Problem = (String, String);
/// Every link of the lattice is rewired at the given rate, to all other places alike.
fn rewiring_problems(case: &Value) -> Result<String, Problem> {
    let (n, k, reps) = (get_u(case, "n") as usize, get_u(case, "kk") as usize, get_u(case, "reps"));
    let beta = case.get("beta").and_then(|b| b.as_f64()).unwrap_or(0.0);
    if n < 16 || k < 2 || k > 4 || k % 2 != 0 {
        return Ok(String::new());
    }
    let mut seen = vec![vec![0f64; n]; n];
    for _ in 0..reps {
        let l = links_of(&Graph::new_random_small_world(n, k, beta)).map_err(|e| ("text form".to_string(), e))?;
        for (a, x) in l.iter().enumerate() {
            for &b in x {
                seen[a][b] += 1.0;
            }
        }
    }
    let r = reps as f64;
    let (kf, free) = (k as f64, (n - 1 - k) as f64);
    for a in 0..n {
        for b in a + 1..n {
            let d = b - a;
            let (lo, hi) = if d.min(n - d) <= k / 2 {
                // kept, or put back by a later rewiring
                (1.0 - beta, 1.0 - beta + beta * kf * beta / free)
            } else {
                let p = kf * beta / free;
                (p / 3.0, (2.5 * p).min(1.0))
            };
            let slack = |p: f64| 7.0 * (p * (1.0 - p) / r).sqrt() + 3.0 / r;
            let f = seen[a][b] / r;
            if f < lo - slack(lo) || f > hi + slack(hi) {
                return Err(("small-world graph".into(), format!("n={} k={} beta={}: {} of {} graphs have a link between {} and {}", n, k, beta, seen[a][b], reps, a, b)));
            }
        }
    }
    Ok(format!("{:?}", seen))
}
fn graph_problems(case: &Value) -> Result<String, Problem> {
    let bad = |k: &str, d: String| -> Result<String, Problem> { Err((k.to_string(), d)) };
    let (n, m, m0, k) = (get_u(case, "n") as usize, get_u(case, "m") as usize, get_u(case, "m0") as usize, get_u(case, "kk") as usize);
    let beta = case.get("beta").and_then(|b| b.as_f64()).unwrap_or(0.0);
    let given: Vec<Vec<usize>> = case.get("graph").map(|_| from(case, "graph")).unwrap_or_default();
    let tiers: Vec<usize> = case.get("tiers").map(|_| from(case, "tiers")).unwrap_or_default();
    let kind = get_s(case, "gen");
    let g = match kind {
        "ba" => Graph::new_random_scale_free(n, m0, m),
        "ws" => Graph::new_random_small_world(n, k, beta),
        "mesh" if tiers.len() == 1 => Graph::new_full_mesh(tiers[0]),
        "mesh" => Graph::new_tiered_full_mesh(&tiers),
        _ => Graph::new(given.clone()),
    };
    let l = match links_of(&g) {
        Ok(l) => l,
        Err(e) => return bad("text form", e),
    };
    // what the graph says about itself
    let (ins, outs) = degrees(&l);
    if g.get_in_degrees() != ins || g.get_out_degrees() != outs || g.number_of_nodes() != l.len() {
        return bad("degrees", format!("degrees {:?} {:?} don't fit the links {:?}", g.get_in_degrees(), g.get_out_degrees(), l));
    }
    let con: Set = (0..l.len()).filter(|&x| ins[x] + outs[x] > 0).collect();
    if set_of(g.get_connected_nodes().iter()) != con {
        return bad("connected nodes", format!("{:?} instead of {:?}", g.get_connected_nodes(), con));
    }
    let und = l.iter().enumerate().all(|(a, x)| x.iter().all(|&b| l[b].contains(&a)));
    if g.is_undirected() != und {
        return bad("undirected", format!("is_undirected says {} of {:?}", g.is_undirected(), l));
    }
    let simple = l.iter().enumerate().all(|(a, x)| !x.contains(&a) && x.windows(2).all(|w| w[0] != w[1]));
    let edges: usize = outs.iter().sum();
    match kind {
        "ba" => {
            if l.len() != n || !und || !simple {
                return bad("scale-free graph", format!("not a simple undirected graph of {} nodes: {:?}", n, l));
            }
            if edges != m0 * (m0 - 1) + 2 * m * (n - m0) {
                return bad("scale-free graph", format!("{} half edges with n={} m0={} m={}", edges, n, m0, m));
            }
            for x in 0..n {
                let older = l[x].iter().filter(|&&y| y < x).count();
                let want = if x < m0 { x } else { m };
                if older != want {
                    return bad("scale-free graph", format!("node {} has {} links to older nodes instead of {}", x, older, want));
                }
            }
            if m == 1 && n >= 200 {
                // preferential attachment: new nodes choose in proportion to degrees (8 sigma)
                let mut deg = vec![0f64; n];
                for x in 0..m0 {
                    deg[x] = (m0 - 1) as f64;
                }
                let (mut z, mut var) = (0.0, 0.0);
                for x in m0..n {
                    let w: Vec<f64> = (0..x).map(|y| deg[y].max(1.0)).collect();
                    let s: f64 = w.iter().sum();
                    let e: f64 = w.iter().map(|w| w * w / s).sum();
                    let v: f64 = w.iter().map(|w| w * w * w / s).sum::<f64>() - e * e;
                    let y = *l[x].iter().find(|&&y| y < x).unwrap();
                    // compare on a bounded scale: heavy tails would need more samples
                    let cap = |d: f64| d.min(8.0);
                    let _ = (e, v);
                    let ec: f64 = w.iter().map(|w| w / s * cap(*w)).sum();
                    let vc: f64 = w.iter().map(|w| w / s * cap(*w) * cap(*w)).sum::<f64>() - ec * ec;
                    z += cap(w[y]) - ec;
                    var += vc;
                    deg[x] += 1.0;
                    deg[y] += 1.0;
                }
                if z.abs() > 8.0 * var.sqrt() + 8.0 {
                    return bad("scale-free graph", format!("attachment does not follow degrees: {:.1} sigma", z / var.sqrt()));
                }
            }
        }
        "ws" => {
            if l.len() != n || !und || !simple || edges != n * k {
                return bad("small-world graph", format!("not a simple undirected graph with {} edges: {:?}", n * k / 2, l));
            }
            let ring = |a: usize, b: usize| {
                let d = (a + n - b) % n;
                d.min(n - d) <= k / 2
            };
            let kept: usize = (0..n).map(|a| l[a].iter().filter(|&&b| ring(a, b)).count()).sum();
            if beta == 0.0 && kept != edges {
                return bad("small-world graph", format!("not a ring lattice: {:?}", l));
            }
            if n >= 40 && k >= 4 && k <= n / 5 {
                let frac = kept as f64 / edges as f64;
                if (beta == 1.0 && frac > 0.75) || (beta == 0.5 && !(0.3..=0.85).contains(&frac)) || (beta == 0.05 && frac < 0.6) {
                    return bad("small-world graph", format!("n={} k={} beta={}: {:.2} of the links are those of the lattice", n, k, beta, frac));
                }
            }
            if beta == 1.0 && n >= 30 && k >= 2 && k <= n / 5 && kept == edges {
                return bad("small-world graph", "nothing was rewired".into());
            }
        }
        "mesh" => {
            let mut start = 0;
            let mut prev: Vec<usize> = vec![];
            let mut want = vec![];
            for &t in &tiers {
                for x in start..start + t {
                    let mut v: Vec<usize> = prev.iter().copied().chain((start..start + t).filter(|&y| y != x)).collect();
                    v.sort_unstable();
                    want.push(v);
                }
                prev = (start..start + t).collect();
                start += t;
            }
            if l != want {
                return bad("mesh", format!("tiers {:?}: {:?}", tiers, l));
            }
        }
        _ => {
            let mut want = given.clone();
            for x in want.iter_mut() {
                x.sort_unstable();
            }
            if l != want {
                return bad("text form", format!("{:?} shown as {:?}", given, l));
            }
        }
    }
    // ranks: simplified page rank
    let got = g.get_rank_scores();
    if let Some(want) = ranks(&l) {
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| (a - b).abs() > 1e-9) {
            return bad("rank scores", format!("{:?} instead of {:?}", got, want));
        }
    }
    // shuffling renames nodes, nothing else
    let mut moved = 0;
    for _ in 0..3 {
        let s = match links_of(&g.clone().shuffled()) {
            Ok(s) => s,
            Err(e) => return bad("shuffled graph", e),
        };
        if s.len() != l.len() || colours(&s) != colours(&l) {
            return bad("shuffled graph", format!("{:?} became {:?}", l, s));
        }
        if s != l {
            moved += 1;
        }
    }
    let mut d = outs.clone();
    d.sort_unstable();
    d.dedup();
    if l.len() >= 20 && d.len() >= 5 && moved == 0 {
        return bad("shuffled graph", "three shuffles changed nothing".into());
    }
    // every name can change: in a chain of nodes, all places can be told apart
    if kind == "links" {
        let len = 120;
        let chain: Vec<Vec<usize>> = (0..len).map(|x| if x + 1 < len { vec![x + 1] } else { vec![] }).collect();
        let mut stayed = vec![true; len];
        for _ in 0..8 {
            let s = links_of(&Graph::new(chain.clone()).shuffled()).map_err(|e| ("shuffled graph".to_string(), e))?;
            let mut x = match (0..len).find(|x| s.iter().all(|l| !l.contains(x))) {
                Some(x) => x,
                None => return bad("shuffled graph", format!("a chain became {:?}", s)),
            };
            for place in 0..len {
                stayed[place] &= x == place;
                if let Some(&y) = s[x].first() {
                    x = y;
                }
            }
        }
        if let Some(x) = stayed.iter().position(|&b| b) {
            return bad("shuffled graph", format!("node {} keeps its name", x));
        }
    }
    // text form and back (undirected graphs: the format's direction is a known finding)
    let text = Graph::to_as_rel_string(&g, Some("a comment")).map_err(|e| ("text form".to_string(), e.to_string()))?;
    let back = Graph::from_as_rel_string(&text);
    let bl = links_of(&back).map_err(|e| ("text form".to_string(), e))?;
    if und {
        let used = con.iter().max().map_or(0, |x| x + 1);
        if bl.len() != used || bl[..] != l[..used] {
            return bad("text form", format!("{:?} read back as {:?}", l, bl));
        }
    } else {
        let (bi, bo) = degrees(&bl);
        if bi.iter().sum::<usize>() != edges || bo.iter().sum::<usize>() != edges {
            return bad("text form", format!("{:?} read back as {:?}", l, bl));
        }
    }
    Ok(format!("{:?}", l))
}
/// `None` if the stopping rule is a close call.
fn ranks(l: &[Vec<usize>]) -> Option<Vec<f64>> {
    let n = l.len();
    if n == 0 {
        return Some(vec![]);
    }
    let start = 1.0 / n as f64;
    let eps = (start / n as f64).max(0.00001);
    let mut s = vec![start; n];
    for _ in 0..(2 * n).max(1000) {
        let mut t = vec![0.0; n];
        for a in 0..n {
            for &b in &l[a] {
                t[b] += s[a] / l[a].len() as f64;
            }
        }
        let worst = s.iter().zip(&t).map(|(a, b): (&f64, &f64)| (a - b).abs()).fold(0.0, f64::max);
        if (worst - eps).abs() < 1e-9 {
            return None;
        }
        s = t;
        if worst < eps {
            break;
        }
    }
    Some(s)
}

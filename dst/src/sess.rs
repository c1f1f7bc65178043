//! Analysis sessions: one `Analysis` object, an arbitrary history of calls on it, some of them cut
//! short by an unwinding interruption, results kept and used later.
use crate::common::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use fbas_analyzer::{Analysis, AnalysisResult, Fbas, Groupings, NodeIdSet, NodeIdSetResult, NodeIdSetVecResult, QuorumSet};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Facet {
    Mq,
    Mbs,
    Mss,
    Qi,
    Tier,
    Results,
    Interrupt,
}
pub struct Sess(pub Facet);

pub const OPS: &[&str] = &[
    "mq", "mbs", "mss", "hqi", "hqialt", "tt", "sym", "symtt", "all", "sat", "unsat",
];

pub fn build(f: &MF, via: &str) -> Fbas {
    if via == "api" {
        let n = f.n();
        fn conv(q: &MQ, n: usize) -> QuorumSet {
            QuorumSet {
                threshold: q.t as usize,
                validators: q.v.iter().copied().filter(|&x| x < n).collect(),
                inner_quorum_sets: q.i.iter().map(|q| conv(q, n)).collect(),
            }
        }
        let mut fbas = Fbas::new();
        for x in 0..n {
            // half of the nodes get their quorum set when they are added, the others later
            if x % 2 == 0 {
                fbas.add_generic_node(conv(&f.nodes[x].q, n));
            } else {
                fbas.add_generic_node(QuorumSet::new());
            }
        }
        for x in (1..n).step_by(2) {
            fbas.swap_quorum_set(x, conv(&f.nodes[x].q, n));
        }
        fbas
    } else {
        Fbas::from_json_str(&f.json())
    }
}
pub fn model_q(q: &QuorumSet) -> MQ {
    MQ {
        t: q.threshold as u64,
        v: q.validators.clone(),
        i: q.inner_quorum_sets.iter().map(model_q).collect(),
    }
}
pub fn sets_of(v: Vec<Vec<usize>>) -> Vec<Set> {
    v.into_iter().map(set_of).collect()
}
/// Compares ignoring the order of the sets, but not duplicates.
pub fn same_sets(actual: &[Set], expected_sorted: &[Set]) -> bool {
    let mut a: Vec<&Set> = actual.iter().collect();
    a.sort_by(|x, y| x.len().cmp(&y.len()).then(x.cmp(y)));
    a.len() == expected_sorted.len() && a.iter().zip(expected_sorted).all(|(x, y)| *x == y)
}
/// An answer, in model terms.
#[derive(Clone, PartialEq, Debug)]
pub enum Ans {
    Sets(Vec<Set>),
    One(Set),
    Bool(bool),
    Alt(bool, Option<Vec<Set>>),
    Qs(Vec<MQ>),
    OptQ(Option<MQ>),
}
/// Something the session handed out.
#[derive(Clone)]
pub enum Held {
    V(NodeIdSetVecResult),
    S(NodeIdSetResult),
    Q(Vec<QuorumSet>),
    No,
}
pub fn sorted_unique_check(v: &[Vec<usize>]) -> bool {
    v.iter().all(|s| s.windows(2).all(|w| w[0] < w[1]))
}
pub fn do_op(a: &Analysis, op: &str) -> (Ans, Held) {
    let vec = |r: NodeIdSetVecResult| (Ans::Sets(sets_of(r.clone().into_vec_vec())), Held::V(r));
    let one = |r: NodeIdSetResult| (Ans::One(set_of(r.clone().into_vec())), Held::S(r));
    match op {
        "mq" => vec(a.minimal_quorums()),
        "mbs" => vec(a.minimal_blocking_sets()),
        "mss" => vec(a.minimal_splitting_sets()),
        "hqi" => (Ans::Bool(a.has_quorum_intersection()), Held::No),
        "hqialt" => {
            let (b, w) = a.has_quorum_intersection_via_alternative_check();
            let ws = w.clone().map(|w| sets_of(w.into_vec_vec()));
            (Ans::Alt(b, ws), w.map_or(Held::No, Held::V))
        }
        "tt" => one(a.top_tier()),
        "all" => one(a.all_nodes()),
        "sat" => one(a.satisfiable_nodes()),
        "unsat" => one(a.unsatisfiable_nodes()),
        "sym" => {
            let q = a.symmetric_clusters();
            (Ans::Qs(q.iter().map(model_q).collect()), Held::Q(q))
        }
        "symtt" => {
            let q = a.symmetric_top_tier();
            (Ans::OptQ(q.as_ref().map(model_q)), q.map_or(Held::No, |q| Held::Q(vec![q])))
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
/// The analyses as plain functions of the network, without a session.
pub const FREE_OPS: &[&str] = &["fmq", "fmbs", "fmss", "fnq", "fsym", "fsymtt", "frel", "fscc", "fsat", "fpart"];
pub fn do_any(a: &Analysis, fbas: &Fbas, op: &str) -> (Ans, Held) {
    use fbas_analyzer::preprocessing::find_satisfiable_nodes;
    use fbas_analyzer::*;
    let set = |s: &NodeIdSet| set_of(s.iter());
    let sets = |v: &[NodeIdSet]| Ans::Sets(v.iter().map(set).collect());
    let ans = match op {
        "fmq" => sets(&find_minimal_quorums(fbas)),
        "fmbs" => sets(&find_minimal_blocking_sets(fbas)),
        "fmss" => sets(&find_minimal_splitting_sets(fbas, &find_minimal_quorums(fbas))),
        "fnq" => match find_nonintersecting_quorums(fbas) {
            Some(w) => Ans::Alt(false, Some(w.iter().map(set).collect())),
            None => Ans::Alt(true, None),
        },
        "fsym" => Ans::Qs(find_symmetric_clusters(fbas).iter().map(model_q).collect()),
        "fsymtt" => Ans::OptQ(find_symmetric_top_tier(fbas).as_ref().map(model_q)),
        "frel" => Ans::One(set(&fbas.relevant_nodes())),
        "fscc" => sets(&fbas.strongly_connected_components()),
        "fsat" => Ans::Sets(vec![set(&fbas.satisfiable_nodes()), set(&fbas.unsatisfiable_nodes())]),
        "fpart" => {
            let (s, u) = find_satisfiable_nodes(&part_of(fbas.number_of_nodes()).into_iter().collect(), fbas);
            Ans::Sets(vec![set(&s), set(&u)])
        }
        _ => return do_op(a, op),
    };
    (ans, Held::No)
}
/// Some part of the nodes: what "fpart" works on.
fn part_of(n: usize) -> Set {
    (0..n).filter(|x| x % 4 != 3).collect()
}
fn strong_components(f: &MF) -> Vec<Set> {
    let n = f.n();
    let mut reach: Vec<Set> = (0..n)
        .map(|x| {
            let mut m = Set::new();
            f.nodes[x].q.members(&mut m);
            m.into_iter().filter(|&y| y < n).collect()
        })
        .collect();
    let direct = reach.clone();
    for x in 0..n {
        let mut todo: Vec<usize> = direct[x].iter().copied().collect();
        while let Some(y) = todo.pop() {
            for &z in &direct[y] {
                if reach[x].insert(z) {
                    todo.push(z);
                }
            }
        }
        reach[x].insert(x);
    }
    let mut out: Vec<Set> = (0..n).map(|x| reach[x].iter().copied().filter(|&y| reach[y].contains(&x)).collect()).collect();
    out.sort();
    out.dedup();
    out
}
fn judge_free(op: &str, ans: &Ans, t: &Truth, f: &MF) -> Result<(), String> {
    let all: Set = (0..t.n).collect();
    let ok = |c: bool, e: String| if c { Ok(()) } else { Err(format!("{}: got {:?}, expected {}", op, ans, e)) };
    match (op, ans) {
        // without quorum intersection, this function does not promise anything
        ("fmss", _) if !t.intersection => Ok(()),
        ("fnq", Ans::Alt(b, w)) => {
            // a network without quorums has no two quorums that do not intersect
            if t.mq.is_empty() {
                ok(*b && w.is_none(), "none".into())
            } else {
                judge("hqialt", ans, t, f)
            }
        }
        ("frel", Ans::One(s)) => {
            let e: Set = strong_components(f)
                .into_iter()
                .map(|c| c.intersection(&t.satisfiable).copied().collect::<Set>())
                .filter(|c| !f.greatest_quorum(c).is_empty())
                .flatten()
                .collect();
            // what is not part of any quorum in a strongly connected component may be left out
            let least: Set = t.mq.iter().flatten().copied().collect();
            ok(least.is_subset(s) && s.is_subset(&e), format!("{:?} or less, but at least {:?}", e, least))
        }
        ("fscc", Ans::Sets(s)) => {
            let e = strong_components(f);
            let mut s = s.clone();
            s.sort();
            ok(s == e, fmt_sets(&e))
        }
        ("fsat", Ans::Sets(s)) => {
            let e = vec![t.satisfiable.clone(), all.difference(&t.satisfiable).copied().collect::<Set>()];
            ok(*s == e, fmt_sets(&e))
        }
        ("fpart", Ans::Sets(s)) => {
            let part = part_of(t.n);
            let g = f.greatest_quorum(&part);
            let e = vec![g.clone(), part.difference(&g).copied().collect::<Set>()];
            ok(*s == e, fmt_sets(&e))
        }
        _ => judge(&op[1..], ans, t, f),
    }
}
/// Judges an answer against the model. `Err` has the reason.
pub fn judge(op: &str, ans: &Ans, t: &Truth, f: &MF) -> Result<(), String> {
    let cmp = |what: &str, a: &[Set], e: &[Set]| {
        if same_sets(a, e) {
            Ok(())
        } else {
            Err(format!("{}: got {}, expected {}", what, fmt_sets(a), fmt_sets(e)))
        }
    };
    if FREE_OPS.contains(&op) {
        return judge_free(op, ans, t, f);
    }
    match (op, ans) {
        ("mq", Ans::Sets(s)) => cmp("minimal quorums", s, &t.mq),
        ("mbs", Ans::Sets(s)) => {
            if t.mq.is_empty() {
                // nothing to block: either no set or the empty set
                if s.iter().all(|x| x.is_empty()) && s.len() <= 1 {
                    return Ok(());
                }
                return Err(format!("minimal blocking sets without any quorum: {}", fmt_sets(s)));
            }
            cmp("minimal blocking sets", s, &t.mbs)
        }
        ("mss", Ans::Sets(s)) => cmp("minimal splitting sets", s, &t.mss),
        ("hqi", Ans::Bool(b)) => {
            if *b == t.intersection {
                Ok(())
            } else {
                Err(format!("quorum intersection: got {}, expected {}", b, t.intersection))
            }
        }
        ("hqialt", Ans::Alt(b, w)) => {
            if *b != t.intersection {
                return Err(format!("alternative check: got {}, expected {}", b, t.intersection));
            }
            match w {
                None => {
                    if !t.intersection && !t.mq.is_empty() {
                        return Err("alternative check: no intersection, but no witness".into());
                    }
                }
                Some(w) => {
                    if t.intersection {
                        return Err(format!("alternative check: intersection, but a witness {}", fmt_sets(w)));
                    }
                    if w.len() < 2 || !w.iter().all(|q| f.is_quorum(q)) || !w[0].is_disjoint(&w[1]) {
                        return Err(format!("alternative check: witness is not two disjoint quorums: {}", fmt_sets(w)));
                    }
                }
            }
            Ok(())
        }
        (_, Ans::One(s)) => {
            let all: Set = (0..t.n).collect();
            let e: Set = match op {
                "tt" => t.top_tier.clone(),
                "all" => all,
                "sat" => t.satisfiable.clone(),
                _ => all.difference(&t.satisfiable).copied().collect(),
            };
            if *s == e {
                Ok(())
            } else {
                Err(format!("{}: got {:?}, expected {:?}", op, s, e))
            }
        }
        ("sym", Ans::Qs(q)) => {
            let mut c: Vec<MQ> = q.iter().map(|q| q.canonical(t.n)).collect();
            c.sort();
            if c == t.symmetric {
                Ok(())
            } else {
                Err(format!("symmetric clusters: got {:?}, expected {:?}", c, t.symmetric))
            }
        }
        ("symtt", Ans::OptQ(q)) => {
            let c = q.as_ref().map(|q| q.canonical(t.n));
            if c == t.symmetric_top_tier {
                Ok(())
            } else {
                Err(format!("symmetric top tier: got {:?}, expected {:?}", c, t.symmetric_top_tier))
            }
        }
        _ => Err(format!("{}: answer of the wrong type {:?}", op, ans)),
    }
}
/// Answers that count as the same (both without quorums: no blocking set / the empty blocking set).
pub fn equivalent(op: &str, a: &Ans, b: &Ans) -> bool {
    let op = if FREE_OPS.contains(&op) { &op[1..] } else { op };
    if let (Ans::Sets(x), Ans::Sets(y)) = (a, b) {
        let norm = |v: &[Set]| -> Vec<Set> {
            let mut v: Vec<Set> = v.iter().filter(|s| op != "mbs" || !s.is_empty()).cloned().collect();
            v.sort_by(|x, y| x.len().cmp(&y.len()).then(x.cmp(y)));
            v
        };
        return norm(x) == norm(y);
    }
    if let (Ans::Alt(x, w), Ans::Alt(y, v)) = (a, b) {
        return x == y && w.is_some() == v.is_some();
    }
    if let (Ans::Qs(x), Ans::Qs(y)) = (a, b) {
        let norm = |v: &[MQ]| -> Vec<MQ> {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        return norm(x) == norm(y);
    }
    a == b
}

impl Facet {
    fn focus(&self) -> &'static [&'static str] {
        match self {
            Facet::Mq => &["mq", "mq", "fmq"],
            Facet::Mbs => &["mbs", "mbs", "fmbs"],
            Facet::Mss => &["mss", "mss", "fmss"],
            Facet::Qi => &["hqi", "hqialt", "hqi", "hqialt", "fnq"],
            Facet::Tier => &["tt", "sym", "symtt", "all", "sat", "unsat", "tt", "fsym", "fsymtt", "frel", "fscc", "fsat", "fpart"],
            Facet::Results => &["mq", "mbs", "mss", "hqialt", "tt", "sat", "unsat", "all", "sym", "symtt"],
            Facet::Interrupt => OPS,
        }
    }
}

impl Family for Sess {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let facet = self.0;
        let sh = Shape {
            max_core: if tier == Tier::Thorough && r.chance(1, 4) {
                14
            } else if r.chance(1, 6) {
                12
            } else {
                *r.pick(&[4, 6, 8, 9, 10])
            },
            duplicates: r.chance(1, 4),
            degenerate: r.chance(1, 4),
            metadata: facet == Facet::Results,
            huge: true,
        };
        let flat = if r.chance(1, if facet == Facet::Results { 25 } else { 10 }) {
            Some(gen_flat(&mut r, if facet == Facet::Interrupt || facet == Facet::Results { 300 } else { 1200 }))
        } else {
            None
        };
        let (f, closed) = match flat {
            Some((f, c)) => (f, Some(c)),
            None => {
                let mut f = gen_fbas(&mut r, &sh);
                // retry a few times for something with quorums
                for _ in 0..3 {
                    let all: Set = (0..f.n()).collect();
                    if !f.greatest_quorum(&all).is_empty() {
                        break;
                    }
                    f = gen_fbas(&mut r, &sh);
                }
                (f, None)
            }
        };
        let orgs = gen_orgs(&mut r, &f);
        let via = if facet != Facet::Tier && facet != Facet::Results && r.chance(1, 5) { "api" } else { "json" };
        let n_ops = r.range(2, 9);
        let focus = facet.focus();
        let mut ops = vec![];
        for _ in 0..n_ops {
            let op = if r.chance(1, 2) { *r.pick(focus) } else if r.chance(1, 8) { *r.pick(FREE_OPS) } else { *r.pick(&["mq", "mbs", "mss", "hqi", "hqialt", "tt", "sym", "sat"]) };
            let int = match facet {
                Facet::Interrupt if r.chance(1, 2) => {
                    if r.chance(1, 4) {
                        r.range(1, 200)
                    } else {
                        r.range(1, 30)
                    }
                }
                _ => 0,
            };
            ops.push(json!({"op": op, "int": int}));
        }
        if !ops.iter().any(|o| focus.contains(&get_s(o, "op"))) {
            ops.push(json!({"op": *r.pick(focus), "int": 0}));
        }
        let mut case = json!({
            "entropy": r.next() >> 1, "via": via, "fbas": f, "ops": ops,
        });
        if let Some(c) = closed {
            case["flat"] = json!(c);
        }
        if facet == Facet::Results {
            case["orgs"] = json!(orgs);
            case["group"] = json!(*r.pick(&["none", "org", "org", "isp", "country"]));
            let k = if r.chance(1, 6) { r.range(0, f.n()) } else { r.range(0, 3) };
            case["without"] = json!(r.sample(f.n(), k));
        }
        case
    }
    fn run(&self, case: &Value) -> Outcome {
        let facet = self.0;
        let case = case.clone();
        on_fresh_thread(get_u(&case, "entropy"), move || run_session(facet, &case))
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = drop_from_array(case, "ops", 1);
        if let Some(ops) = case["ops"].as_array() {
            for (k, o) in ops.iter().enumerate() {
                if get_u(o, "int") > 0 {
                    let mut w = case.clone();
                    w["ops"][k]["int"] = json!(0);
                    out.push(w);
                }
            }
        }
        if case.get("flat").is_some() {
            return out;
        }
        let f: MF = from(case, "fbas");
        let orgs: Vec<MOrg> = case.get("orgs").map(|_| from(case, "orgs")).unwrap_or_default();
        for (g, o) in shrink_fbas(&f, &orgs) {
            let mut w = case.clone();
            w["fbas"] = json!(g);
            if case.get("orgs").is_some() {
                w["orgs"] = json!(o);
                let wo: Vec<usize> = from::<Vec<usize>>(case, "without").into_iter().filter(|&x| x < g.n()).collect();
                w["without"] = json!(wo);
            }
            out.push(w);
        }
        if case.get("without").and_then(|w| w.as_array()).map_or(false, |a| !a.is_empty()) {
            let mut w = case.clone();
            w["without"] = json!([]);
            out.push(w);
        }
        if get_s(case, "via") == "api" {
            let mut w = case.clone();
            w["via"] = json!("json");
            out.push(w);
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        (100_000, 6_000_000)
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["fbas_analyzer library (core types, JSON input, analysis, results)"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec![
            "entropy (hash map keys): seeded per run",
            "log sink: simulated, the seam for interruptions",
        ]
    }
    fn rule(&self) -> &'static str {
        "seeded random FBAS (symmetric, nested, near-symmetric, several clusters, sparse with ids up to ~130, closed-form ones up to 300 nodes: flat, in organizations, cycles) x seeded session of 2-10 calls x seeded hash entropy x interruptions; non-trivial: the FBAS has a quorum and at least two calls were made; distinct: by hash of the run's trace (calls, outcomes, answers)"
    }
}

fn run_session(facet: Facet, case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let f: MF = from(case, "fbas");
    let truth = match case.get("flat") {
        Some(_) => closed_truth(&f, &from::<Flat>(case, "flat")),
        None => match f.truth(16) {
            Some(t) => t,
            None => {
                o.count("skipped: too large for the model", 1);
                return o;
            }
        },
    };
    let via = get_s(case, "via").to_string();
    let fbas = match call0(|| build(&f, &via)) {
        Ok(x) => x,
        Err(_) => {
            // loading is not what these properties are about
            o.count("skipped: could not build the FBAS", 1);
            return o;
        }
    };
    let analysis = match call0(|| Analysis::new(&fbas)) {
        Ok(a) => a,
        Err(m) => {
            o.fail("panic", format!("starting the analysis panicked: {}", m));
            return o;
        }
    };
    let reference = if facet == Facet::Interrupt { call0(|| Analysis::new(&fbas)).ok() } else { None };
    let focus = facet.focus();
    let mut held: Vec<(String, Ans, Held)> = vec![];
    let ops: Vec<Value> = from(case, "ops");
    let mut done = 0;
    let mut interrupted = 0u64;
    let log0 = LOG_SEEN.with(|c| c.get());
    for (k, op) in ops.iter().enumerate() {
        let name = get_s(op, "op").to_string();
        let int = get_u(op, "int");
        let mine = focus.contains(&name.as_str());
        let r = call(int, || do_any(&analysis, &fbas, &name));
        done += 1;
        match r {
            Called::Interrupted => {
                interrupted += 1;
                o.count("fault: call interrupted by unwinding", 1);
                o.mix_trace(&format!("{}:{}!", name, int));
            }
            Called::Panicked(m) => {
                o.mix_trace(&format!("{}:P", name));
                match facet {
                    Facet::Interrupt => {
                        // does it happen without interruptions as well?
                        if let Some(r) = &reference {
                            if interrupted > 0 && call0(|| do_any(r, &fbas, &name)).is_ok() {
                                o.fail("panic", format!("call {} ({}) panicked after {} interruptions: {}", k, name, interrupted, m));
                            }
                        }
                    }
                    Facet::Results => {}
                    _ if mine => o.fail("panic", format!("call {} ({}) panicked: {}", k, name, m)),
                    _ => o.count("calls of other properties that panicked", 1),
                }
                if facet != Facet::Interrupt || !o.ok() {
                    break;
                }
            }
            Called::Done((ans, h)) => {
                o.mix_trace(&format!("{}:{:?}", name, ans));
                match facet {
                    Facet::Interrupt => {
                        if let Some(r) = &reference {
                            match call0(|| do_any(r, &fbas, &name)) {
                                Ok((want, _)) => {
                                    if interrupted > 0 && !equivalent(&name, &ans, &want) {
                                        o.fail(
                                            "answer changed by an interruption",
                                            format!("call {} ({}) after {} interruptions: {:?}, without them: {:?}", k, name, interrupted, ans, want),
                                        );
                                    } else if interrupted > 0 {
                                        if let (Err(e), Ok(())) = (judge(&name, &ans, &truth, &f), judge(&name, &want, &truth, &f)) {
                                            o.fail("wrong after an interruption", format!("call {} ({}): {}", k, name, e));
                                        }
                                    }
                                }
                                Err(_) => o.count("reference panicked", 1),
                            }
                        }
                    }
                    Facet::Results => {}
                    _ => {
                        if mine {
                            if let Err(e) = judge(&name, &ans, &truth, &f) {
                                o.fail("wrong answer", format!("call {} of {:?}: {}", k, ops.iter().map(|o| get_s(o, "op")).collect::<Vec<_>>(), e));
                            }
                        }
                    }
                }
                held.push((name, ans, h));
            }
        }
        if !o.ok() {
            break;
        }
    }
    o.steps = LOG_SEEN.with(|c| c.get()) - log0 + done;
    o.nontrivial = done >= 2 && !truth.mq.is_empty() && (facet != Facet::Interrupt || interrupted > 0);
    if case.get("flat").is_some() {
        o.count("workload: closed-form networks (flat, in organizations, cycles)", 1);
    }
    if !truth.intersection && !truth.mq.is_empty() {
        o.count("workload: no quorum intersection", 1);
    }
    if !truth.symmetric.is_empty() {
        o.count("workload: symmetric clusters", 1);
    }
    if f.n() > truth.top_tier.len() {
        o.count("workload: nodes outside the top tier", 1);
    }
    if f.n() > 64 {
        o.count("workload: more than 64 nodes", 1);
    }
    if facet == Facet::Results && o.ok() {
        check_results(&mut o, case, &f, &fbas, &held);
    }
    o
}

/// Results that were handed out must still be what they were, and everything derived from them
/// must follow from the sets they contain.
fn check_results(o: &mut Outcome, case: &Value, f: &MF, fbas: &Fbas, held: &[(String, Ans, Held)]) {
    let orgs: Vec<MOrg> = from(case, "orgs");
    let group = get_s(case, "group");
    let without: Vec<usize> = from(case, "without");
    let n = f.n();
    let nodes_json = f.json();
    // the model's grouping: group name and members (known ones, in order)
    let mut groups: Vec<(String, Vec<usize>)> = vec![];
    match group {
        "org" => {
            for g in &orgs {
                groups.push((g.name.clone(), g.v.iter().copied().filter(|&x| x < n).collect()));
            }
        }
        "isp" | "country" => {
            for (x, node) in f.nodes.iter().enumerate() {
                let raw = if group == "isp" { &node.isp } else { &node.country };
                if let Some(raw) = raw {
                    let mut name: String = raw.chars().filter(|&c| c != ',').collect();
                    if name.ends_with('.') {
                        name.pop();
                    }
                    match groups.iter_mut().find(|(g, _)| *g == name) {
                        Some((_, v)) => v.push(x),
                        None => groups.push((name, vec![x])),
                    }
                }
            }
        }
        _ => {}
    }
    let built = call0(|| match group {
        "org" => {
            let v: Vec<Value> = orgs
                .iter()
                .map(|g| json!({"name": g.name, "validators": g.v.iter().map(|&x| f.name(x)).collect::<Vec<_>>()}))
                .collect();
            Some(Groupings::organizations_from_json_str(&serde_json::to_string(&v).unwrap(), fbas))
        }
        "isp" => Some(Groupings::isps_from_json_str(&nodes_json, fbas)),
        "country" => Some(Groupings::countries_from_json_str(&nodes_json, fbas)),
        _ => None,
    });
    let groupings = match built {
        Ok(g) => g,
        Err(m) => {
            o.fail("panic", format!("loading the groupings panicked: {}", m));
            return;
        }
    };
    let group_of = |x: usize| groups.iter().position(|(_, v)| v.contains(&x));
    // what a merged node is called by does not matter, only that members of a group coincide
    // and that it is one of them
    let name_of = |x: usize, grouped: bool| -> String {
        if grouped {
            if let Some(g) = group_of(x) {
                return groups[g].0.clone();
            }
        }
        f.name(x)
    };
    let merged_model = |s: &Set| -> Set {
        // canonical representative: smallest member of the group
        s.iter()
            .map(|&x| match group_of(x) {
                Some(g) => *groups[g].1.iter().min().unwrap(),
                None => x,
            })
            .collect()
    };
    let removed_ids: Set = without.iter().copied().collect();
    // names to remove: groups of the chosen nodes if there are groupings, else public keys
    let removed_names: Vec<String> = without.iter().map(|&x| name_of(x, groupings.is_some())).chain(Some("no such node".to_string())).collect();
    let removed_by_name: Set = if groupings.is_some() {
        without
            .iter()
            .flat_map(|&x| match group_of(x) {
                Some(g) => groups[g].1.clone(),
                None => vec![x],
            })
            .collect()
    } else {
        removed_ids.clone()
    };
    let names: Vec<&str> = removed_names.iter().map(|s| s.as_str()).collect();
    for (k, (op, ans, h)) in held.iter().enumerate() {
        let r = call0(|| -> Result<(), String> {
            macro_rules! ensure {
                ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
            }
            match (h, ans) {
                (Held::V(r), Ans::Sets(sets)) | (Held::V(r), Ans::Alt(_, Some(sets))) => {
                    let vv = r.clone().into_vec_vec();
                    ensure!(sorted_unique_check(&vv), "into_vec_vec: a set is not sorted: {:?}", vv);
                    let again = sets_of(vv.clone());
                    ensure!(again == *sets, "result changed after it was handed out: {} then {}", fmt_sets(sets), fmt_sets(&again));
                    let un: Vec<Set> = r.clone().unwrap().iter().map(|b| set_of(b.iter())).collect();
                    ensure!(un == *sets, "unwrap: {} instead of {}", fmt_sets(&un), fmt_sets(sets));
                    let involved: Set = sets.iter().flatten().copied().collect();
                    let got = set_of(r.involved_nodes().iter());
                    ensure!(got == involved, "involved_nodes: {:?} instead of {:?}", got, involved);
                    ensure!(r.len() == sets.len() && r.is_empty() == sets.is_empty(), "len/is_empty");
                    ensure!(r.contains_empty_set() == sets.iter().any(|s| s.is_empty()), "contains_empty_set");
                    let st = stats(sets);
                    ensure!(close(&r.minmaxmean(), &st.0), "minmaxmean: {:?} instead of {:?}", r.minmaxmean(), st.0);
                    ensure!(r.min() == st.0 .0 && r.max() == st.0 .1, "min/max");
                    ensure!(r.histogram() == st.1, "histogram: {:?} instead of {:?}", r.histogram(), st.1);
                    let d = r.describe();
                    ensure!(d.0 == sets.len() && d.1 == involved.len() && close(&d.2, &st.0) && d.3 == st.1, "describe: {:?}", d);
                    let ser: Vec<Vec<usize>> = serde_json::from_str(&serde_json::to_string(r).unwrap()).map_err(|e| e.to_string())?;
                    ensure!(ser == vv, "serialization: {:?} instead of {:?}", ser, vv);
                    let ids: Vec<Vec<usize>> = serde_json::from_str(&r.clone().into_id_string()).map_err(|e| e.to_string())?;
                    ensure!(ids == vv, "id string: {:?} instead of {:?}", ids, vv);
                    let pretty = r.clone().into_pretty_vec_vec(fbas, groupings.as_ref());
                    let want: Vec<Vec<String>> = vv.iter().map(|s| s.iter().map(|&x| name_of(x, groupings.is_some())).collect()).collect();
                    ensure!(pretty == want, "pretty: {:?} instead of {:?}", pretty, want);
                    let min = r.minimal_sets();
                    ensure!(same_sets(&sets_of(min.clone().into_vec_vec()), &minimal_only(sets.clone())), "minimal_sets: {}", fmt_sets(&sets_of(min.into_vec_vec())));
                    let wo = sets_of(r.without_nodes(&without).into_vec_vec());
                    let want: Vec<Set> = sets.iter().map(|s| s.difference(&removed_ids).copied().collect()).collect();
                    ensure!(wo == want, "without_nodes: {} instead of {}", fmt_sets(&wo), fmt_sets(&want));
                    let wom = sets_of(r.without_nodes(&without).minimal_sets().into_vec_vec());
                    ensure!(same_sets(&wom, &minimal_only(want.clone())), "without_nodes + minimal_sets: {}", fmt_sets(&wom));
                    let wp = sets_of(r.without_nodes_pretty(&names, fbas, groupings.as_ref()).into_vec_vec());
                    let want: Vec<Set> = sets.iter().map(|s| s.difference(&removed_by_name).copied().collect()).collect();
                    ensure!(wp == want, "without_nodes_pretty: {} instead of {}", fmt_sets(&wp), fmt_sets(&want));
                    {
                        use fbas_analyzer::sets::*;
                        let bits: Vec<NodeIdSet> = r.clone().unwrap();
                        let rev: Vec<NodeIdSet> = bits.iter().rev().chain(bits.first()).cloned().collect();
                        let as_sets = |v: &[NodeIdSet]| -> Vec<Set> { v.iter().map(|b| set_of(b.iter())).collect() };
                        ensure!(set_of(fbas_analyzer::sets::involved_nodes(&bits).iter()) == involved, "sets::involved_nodes");
                        let inter = sets.iter().enumerate().all(|(i, a)| sets.iter().skip(i + 1).all(|b| !a.is_disjoint(b)));
                        ensure!(sets.iter().any(|s| s.is_empty()) || all_intersect(&bits) == inter, "sets::all_intersect: not {}", inter);
                        ensure!(is_set_of_minimal_node_sets(&bits) == (minimal_only(sets.clone()).len() == sets.len()), "sets::is_set_of_minimal_node_sets");
                        // collections that are not minimal, and ones that don't all intersect
                        let minimal = |v: &[Set]| v.iter().enumerate().all(|(i, a)| v.iter().enumerate().all(|(j, b)| i == j || !a.is_subset(b)));
                        let intersect = |v: &[Set]| v.iter().enumerate().all(|(i, a)| v.iter().skip(i + 1).all(|b| !a.is_disjoint(b)));
                        let cut = r.without_nodes(&without).unwrap();
                        let merged = groupings.as_ref().map(|g| g.merge_node_sets(bits.clone())).unwrap_or_default();
                        let last: NodeIdSet = bits.last().cloned().unwrap_or_default().iter().take(1).collect();
                        let small: Vec<NodeIdSet> = bits.iter().cloned().chain(Some(last)).collect();
                        for v in [&rev, &cut, &merged, &small] {
                            let s = as_sets(v);
                            ensure!(is_set_of_minimal_node_sets(v) == minimal(&s), "sets::is_set_of_minimal_node_sets: not {} for {}", minimal(&s), fmt_sets(&s));
                            ensure!(s.iter().any(|s| s.is_empty()) || all_intersect(v) == intersect(&s), "sets::all_intersect: not {} for {}", intersect(&s), fmt_sets(&s));
                        }
                        let min = as_sets(&remove_non_minimal_node_sets(rev));
                        ensure!(same_sets(&min, &minimal_only(sets.clone())), "sets::remove_non_minimal_node_sets: {}", fmt_sets(&min));
                        if let Some(g) = &groupings {
                            let want: Vec<Set> = sets.iter().map(&merged_model).collect();
                            let m = as_sets(&g.merge_node_sets(bits.clone()));
                            ensure!(m.iter().map(|s| s.len()).eq(want.iter().map(|s| s.len())) && m.iter().map(&merged_model).eq(want.iter().cloned()), "merge_node_sets: {} instead of {}", fmt_sets(&m), fmt_sets(&want));
                            let m: Vec<Set> = as_sets(&g.merge_minimal_node_sets(bits));
                            let canon: Vec<Set> = m.iter().map(&merged_model).collect();
                            ensure!(same_sets(&canon, &minimal_only(want.clone())), "merge_minimal_node_sets: {} instead of {}", fmt_sets(&canon), fmt_sets(&minimal_only(want)));
                        }
                    }
                    if let Some(g) = &groupings {
                        let m = r.merged_by_group(g);
                        let st = stats(&sets_of(m.clone().into_vec_vec()));
                        ensure!(close(&m.minmaxmean(), &st.0) && (m.min(), m.max()) == (st.0 .0, st.0 .1) && m.histogram() == st.1, "statistics of merged sets: {:?} instead of {:?}", m.describe(), st);
                        let cut = r.without_nodes(&without);
                        let st = stats(&sets_of(cut.clone().into_vec_vec()));
                        ensure!(close(&cut.minmaxmean(), &st.0) && (cut.min(), cut.max()) == (st.0 .0, st.0 .1) && cut.histogram() == st.1, "statistics after removing nodes: {:?} instead of {:?}", cut.describe(), st);
                        let want: Vec<Set> = sets.iter().map(&merged_model).collect();
                        let got: Vec<Set> = sets_of(m.clone().into_vec_vec());
                        ensure!(got.iter().map(|s| s.len()).eq(want.iter().map(|s| s.len())), "merged_by_group: sizes of {} instead of {}", fmt_sets(&got), fmt_sets(&want));
                        let canon: Vec<Set> = got.iter().map(&merged_model).collect();
                        ensure!(canon == want, "merged_by_group: {} instead of {}", fmt_sets(&canon), fmt_sets(&want));
                        let mm: Vec<Set> = sets_of(m.minimal_sets().into_vec_vec()).iter().map(&merged_model).collect();
                        ensure!(same_sets(&mm, &minimal_only(want.clone())), "merged_by_group + minimal_sets: {} instead of {}", fmt_sets(&mm), fmt_sets(&minimal_only(want.clone())));
                        let mmm: Vec<Set> = r.clone().merged_by_group(g).minimal_sets().into_pretty_vec_vec(fbas, Some(g)).iter().map(|s| set_of(0..s.len())).collect();
                        ensure!(mmm.len() == mm.len(), "pretty merged result has {} sets instead of {}", mmm.len(), mm.len());
                    }
                }
                (Held::S(r), Ans::One(set)) => {
                    ensure!(set_of(r.clone().into_vec()) == *set, "result changed after it was handed out");
                    ensure!(set_of(r.involved_nodes().iter()) == *set, "involved_nodes");
                    ensure!(set_of(r.clone().unwrap().iter()) == *set, "unwrap");
                    ensure!(r.len() == set.len() && r.is_empty() == set.is_empty(), "len/is_empty");
                    let ids: Vec<usize> = serde_json::from_str(&r.clone().into_id_string()).map_err(|e| e.to_string())?;
                    ensure!(ids == set.iter().copied().collect::<Vec<_>>(), "id string {:?}", ids);
                    let pretty = r.clone().into_pretty_vec(fbas, groupings.as_ref());
                    let want: Vec<String> = set.iter().map(|&x| name_of(x, groupings.is_some())).collect();
                    ensure!(pretty == want, "pretty: {:?} instead of {:?}", pretty, want);
                    let wo = set_of(r.without_nodes(&without).into_vec());
                    ensure!(wo == set.difference(&removed_ids).copied().collect::<Set>(), "without_nodes: {:?}", wo);
                    let wp = set_of(r.without_nodes_pretty(&names, fbas, groupings.as_ref()).into_vec());
                    ensure!(wp == set.difference(&removed_by_name).copied().collect::<Set>(), "without_nodes_pretty: {:?}", wp);
                    if let Some(g) = &groupings {
                        let m = set_of(r.merged_by_group(g).into_vec());
                        ensure!(m.len() == merged_model(set).len() && merged_model(&m) == merged_model(set), "merged_by_group: {:?} of {:?}", m, set);
                    }
                }
                (Held::Q(qs), a) => {
                    let want: Vec<MQ> = match a {
                        Ans::Qs(q) => q.clone(),
                        Ans::OptQ(Some(q)) => vec![q.clone()],
                        _ => vec![],
                    };
                    let got: Vec<MQ> = qs.iter().map(model_q).collect();
                    ensure!(got == want, "quorum sets changed");
                    let p: Vec<Value> = serde_json::from_str(&qs.clone().into_pretty_string(fbas, None)).map_err(|e| e.to_string())?;
                    let w: Vec<Value> = want.iter().map(|q| q.json(f)).collect();
                    ensure!(p == w, "pretty quorum sets: {:?} instead of {:?}", p, w);
                    if let Some(g) = &groupings {
                        let merged = g.merge_quorum_sets(qs.clone());
                        ensure!(merged.len() == qs.len(), "merge_quorum_sets: {} of {}", merged.len(), qs.len());
                        let p: Vec<Value> = serde_json::from_str(&qs.clone().into_pretty_string(fbas, Some(g))).map_err(|e| e.to_string())?;
                        for ((q, m), p) in want.iter().zip(&merged).zip(p) {
                            let rep = |x: usize| *merged_model(&set_of([x])).iter().next().unwrap();
                            if let Some(e) = merge_q(q, &rep) {
                                let canon = |m: &MQ| map_q(m, &rep).canonical(n);
                                ensure!(canon(&model_q(m)) == e.canonical(n), "merge_quorum_sets: {:?} instead of {:?}", m, e);
                                let e = sorted_names(&map_names(&e, &|x| name_of(x, true)));
                                ensure!(sorted_names(&p) == e, "pretty merged quorum sets: {} instead of {}", p, e);
                            }
                        }
                    }
                }
                _ => {}
            }
            Ok(())
        });
        o.count("results used after they were handed out", 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => o.fail("wrong derived result", format!("result {} ({}), groups {}: {}", k, op, group, e)),
            Err(m) => o.fail("panic", format!("using result {} ({}), groups {}, panicked: {}", k, op, group, m)),
        }
        if !o.ok() {
            return;
        }
    }
}
/// (min, max, mean), histogram
pub fn stats(sets: &[Set]) -> ((usize, usize, f64), Vec<usize>) {
    let sizes: Vec<usize> = sets.iter().map(|s| s.len()).collect();
    let min = sizes.iter().copied().min().unwrap_or(0);
    let max = sizes.iter().copied().max().unwrap_or(0);
    let mean = if sizes.is_empty() { 0.0 } else { sizes.iter().sum::<usize>() as f64 / sizes.len() as f64 };
    let mut h = vec![0; max + 1];
    for s in sizes {
        h[s] += 1;
    }
    ((min, max, mean), h)
}
pub fn close(a: &(usize, usize, f64), b: &(usize, usize, f64)) -> bool {
    a.0 == b.0 && a.1 == b.1 && (a.2 - b.2).abs() <= 1e-9 * (1.0 + b.2.abs())
}
fn map_q(q: &MQ, f: &dyn Fn(usize) -> usize) -> MQ {
    MQ { t: q.t, v: q.v.iter().map(|&x| f(x)).collect(), i: q.i.iter().map(|q| map_q(q, f)).collect() }
}
/// Merging a quorum set: members become their groups; what has only members of one group becomes that group.
/// Only for quorum sets that consist, at each level, of either nodes or inner quorum sets; else `None`.
fn merge_q(q: &MQ, rep: &dyn Fn(usize) -> usize) -> Option<MQ> {
    if !q.v.is_empty() && !q.i.is_empty() {
        return None;
    }
    let mut v: Vec<usize> = q.v.iter().map(|&x| rep(x)).collect();
    let mut i = vec![];
    for q in &q.i {
        let m = merge_q(q, rep)?;
        match (m.v.len(), m.i.len()) {
            (1, 0) => v.push(m.v[0]),
            (1, _) => return None,
            _ => i.push(m),
        }
    }
    let mut t = q.t;
    if !v.is_empty() && v.iter().all(|&x| x == v[0]) {
        if !i.is_empty() {
            return None;
        }
        t = 1;
        v.truncate(1);
    }
    Some(MQ { t, v, i })
}
fn map_names(q: &MQ, name: &dyn Fn(usize) -> String) -> Value {
    let mut w = json!({"threshold": q.t, "validators": q.v.iter().map(|&x| name(x)).collect::<Vec<_>>()});
    if !q.i.is_empty() {
        w["innerQuorumSets"] = json!(q.i.iter().map(|q| map_names(q, name)).collect::<Vec<_>>());
    }
    w
}
fn sorted_names(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(sorted_names).collect();
            a.sort_by_key(|v| v.to_string());
            Value::Array(a)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), sorted_names(v))).collect()),
        v => v.clone(),
    }
}

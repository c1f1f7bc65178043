//! P15: the standard form as a key for reusing results. P16: edit histories of FBAS values.
use crate::common::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sess::{build, model_q, same_sets};
use fbas_analyzer::{Analysis, Fbas, Groupings, NodeIdSet, QuorumSet};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Forms;
pub struct Edits;

/// Another description of the same relevant network: nodes in another order, validators in another
/// order, more nodes nobody needs, references to nodes that don't exist or can't ever be satisfied.
pub fn variant(f: &MF, r: &mut Rng) -> MF {
    let n = f.n();
    let extra = if r.chance(2, 3) { r.range(0, 5) } else { 0 };
    let total = n + extra;
    let mut perm: Vec<usize> = (0..total).collect();
    r.shuffle(&mut perm); // perm[old] = new
    let dead: Vec<usize> = (n..total).filter(|_| r.chance(1, 2)).collect();
    fn map(q: &MQ, perm: &[usize], dead: &[usize], r: &mut Rng) -> MQ {
        let mut v: Vec<usize> = q.v.iter().map(|&x| perm.get(x).copied().unwrap_or(x)).collect();
        if r.chance(1, 4) && !dead.is_empty() {
            v.push(perm[*r.pick(dead)]);
        }
        if r.chance(1, 6) {
            v.push(910_000 + r.below(4));
        }
        r.shuffle(&mut v);
        let mut i: Vec<MQ> = q.i.iter().map(|q| map(q, perm, dead, r)).collect();
        r.shuffle(&mut i);
        MQ { t: q.t, v, i }
    }
    let mut nodes: Vec<Option<MNode>> = vec![None; total];
    for x in 0..total {
        let node = if x < n {
            MNode { q: map(&f.nodes[x].q, &perm, &dead, r), ..f.nodes[x].clone() }
        } else {
            let q = if dead.contains(&x) {
                // can never be satisfied
                match r.below(3) {
                    0 => MQ::default(),
                    1 => MQ { t: 1, v: vec![920_000 + x], i: vec![] },
                    _ => MQ { t: 2, v: vec![perm[x]], i: vec![] },
                }
            } else if n > 0 {
                // nobody refers to it
                MQ { t: 2, v: vec![perm[x], perm[r.below(n)]], i: vec![] }
            } else {
                MQ::default()
            };
            // must not be the name of a node
            MNode { pk: format!("{}X{}", ["A", "G5", "z"][x % 3], 5000 + x), q, isp: None, country: None }
        };
        nodes[perm[x]] = Some(node);
    }
    MF { nodes: nodes.into_iter().map(|n| n.unwrap()).collect() }
}
/// A network in which one threshold or one validator is different.
fn mutate(f: &MF, r: &mut Rng) -> MF {
    let mut g = f.clone();
    if g.n() == 0 {
        return g;
    }
    for _ in 0..r.range(1, 2) {
        let x = r.below(g.n());
        let n = g.n();
        let q = &mut g.nodes[x].q;
        match r.below(4) {
            0 => q.t = (q.t % 5) + 1,
            1 => {
                if !q.v.is_empty() {
                    let k = r.below(q.v.len());
                    q.v.remove(k);
                }
            }
            2 => q.v.push(r.below(n)),
            _ => {
                if let Some(i) = q.i.first_mut() {
                    i.t = (i.t % 4) + 1;
                } else {
                    q.t = q.t.saturating_sub(1).max(1);
                }
            }
        }
    }
    g
}
/// Truth in terms of public keys.
#[derive(PartialEq, Clone, Debug)]
struct Named {
    mq: Vec<Vec<String>>,
    mbs: Vec<Vec<String>>,
    mss: Vec<Vec<String>>,
    hqi: bool,
}
fn names(v: &[Set], f: &MF) -> Vec<Vec<String>> {
    let mut o: Vec<Vec<String>> = v
        .iter()
        .map(|s| {
            let mut l: Vec<String> = s.iter().map(|&x| f.name(x)).collect();
            l.sort();
            l
        })
        .collect();
    o.sort();
    o
}
fn named(t: &Truth, f: &MF) -> Named {
    Named { mq: names(&t.mq, f), mbs: names(&t.mbs, f), mss: names(&t.mss, f), hqi: t.intersection }
}

impl Family for Forms {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let sh = Shape {
            max_core: if tier == Tier::Thorough && r.chance(1, 4) { 12 } else { *r.pick(&[4, 6, 8, 9]) },
            duplicates: r.chance(1, 5),
            degenerate: r.chance(1, 5),
            metadata: false,
            huge: r.chance(1, 3),
        };
        let f = gen_fbas(&mut r, &sh);
        // a history of networks: classes 0.. are different networks, each seen several times
        let mut classes = vec![f.clone()];
        for _ in 0..r.range(0, 2) {
            let base = r.pick(&classes).clone();
            classes.push(mutate(&base, &mut r));
        }
        let mut hist = vec![];
        for (c, f) in classes.iter().enumerate() {
            for k in 0..r.range(1, 3) {
                let g = if k == 0 && r.chance(1, 2) { f.clone() } else { variant(f, &mut r) };
                hist.push(json!({"class": c, "entropy": r.next() >> 1, "fbas": g, "pretty": r.chance(1, 2)}));
            }
        }
        r.shuffle(&mut hist);
        json!({ "classes": classes, "history": hist })
    }
    fn run(&self, case: &Value) -> Outcome {
        let mut o = Outcome::default();
        let classes: Vec<MF> = from(case, "classes");
        let mut truths = vec![];
        for f in &classes {
            match f.truth(16) {
                Some(t) => truths.push((named(&t, f), t)),
                None => {
                    o.count("skipped: too large for the model", 1);
                    return o;
                }
            }
        }
        // the cache a tool keeps: standard form -> results (in public keys)
        let mut cache: BTreeMap<String, (usize, Named)> = BTreeMap::new();
        let mut keys: Vec<Option<String>> = vec![None; classes.len()];
        let hist: Vec<Value> = from(case, "history");
        let mut hits = 0;
        for (k, h) in hist.iter().enumerate() {
            let class = get_u(h, "class") as usize;
            let f: MF = from(h, "fbas");
            let pretty = get_b(h, "pretty");
            let f2 = f.clone();
            let n = f.n();
            let r = on_fresh_thread(get_u(h, "entropy"), move || {
                call0(|| {
                    let fbas = Fbas::from_json_str(&f2.json());
                    let std = fbas.to_standard_form();
                    let key = std.to_json_string();
                    let again = if pretty { Fbas::from_json_str(&std.to_json_string_pretty()) } else { Fbas::from_json_str(&key) };
                    let mut problems = vec![];
                    // (dropping nodes can make further nodes irrelevant, so this needs all of them)
                    let fixed_point = std.number_of_nodes() == n;
                    if again != std {
                        problems.push("reading the serialized standard form gives another FBAS".to_string());
                    }
                    if fixed_point && std.to_standard_form() != std {
                        problems.push(format!("the standard form of the standard form is another FBAS: {} and then {}", key, std.to_standard_form().to_json_string()));
                    }
                    if fixed_point && again.to_standard_form().to_json_string() != key {
                        problems.push("the standard form read back has another standard form".to_string());
                    }
                    let raw: Vec<Value> = serde_json::from_str(&key).expect("standard form is JSON");
                    let pks: Vec<String> = raw.iter().map(|n| get_s(n, "publicKey").to_string()).collect();
                    if pks.windows(2).any(|w| w[0] >= w[1]) {
                        problems.push(format!("the standard form's nodes are not in the order of their public keys: {:?}", pks));
                    }
                    for (id, pk) in pks.iter().enumerate() {
                        if std.get_node_id(pk) != Some(id) {
                            problems.push(format!("standard form: node {} has ID {:?} instead of {}", pk, std.get_node_id(pk), id));
                        }
                    }
                    // analyses of the standard form, in public keys
                    let a = Analysis::new(&std);
                    let conv = |v: Vec<Vec<usize>>| {
                        let mut o: Vec<Vec<String>> = v
                            .into_iter()
                            .map(|s| {
                                let mut l: Vec<String> = s.into_iter().map(|x| pks[x].clone()).collect();
                                l.sort();
                                l
                            })
                            .collect();
                        o.sort();
                        o
                    };
                    let n = Named {
                        mq: conv(a.minimal_quorums().into_vec_vec()),
                        mbs: conv(a.minimal_blocking_sets().into_vec_vec()),
                        mss: conv(a.minimal_splitting_sets().into_vec_vec()),
                        hqi: a.has_quorum_intersection(),
                    };
                    (key, n, problems)
                })
            });
            let (key, res, problems) = match r {
                Ok(x) => x,
                Err(m) => {
                    o.fail("panic", format!("network {} of the history: {}", k, m));
                    break;
                }
            };
            o.mix_trace(&key);
            o.steps += 1;
            if let Some(p) = problems.first() {
                o.fail("standard form", p.clone());
                break;
            }
            let want = &truths[class].0;
            let mut res = res;
            if want.mq.is_empty() {
                // nothing to block: no set or the empty set
                res.mbs.retain(|s| !s.is_empty());
            }
            if res != *want {
                o.fail("standard form changes results", format!("network {}: standard form has {:?}, the network {:?}", k, res, want));
                break;
            }
            match &keys[class] {
                Some(old) if *old != key => {
                    o.fail("same network, other standard form", format!("network {} of the history: {} and {}", k, old, key));
                    break;
                }
                _ => keys[class] = Some(key.clone()),
            }
            match cache.get(&key) {
                Some((c, cached)) => {
                    hits += 1;
                    if cached != want {
                        o.fail("wrong result reused", format!("networks of classes {} and {} share the standard form {} but not their results", c, class, key));
                        break;
                    }
                }
                None => {
                    cache.insert(key, (class, want.clone()));
                }
            }
        }
        o.count("results reused", hits);
        o.nontrivial = hits > 0 && truths.iter().any(|t| !t.0.mq.is_empty());
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = drop_from_array(case, "history", 1);
        let hist: Vec<Value> = from(case, "history");
        let classes: Vec<MF> = from(case, "classes");
        // drop a node everywhere
        let pks: std::collections::BTreeSet<String> = classes.iter().flat_map(|f| f.nodes.iter().map(|n| n.pk.clone())).collect();
        let extra: std::collections::BTreeSet<String> =
            hist.iter().flat_map(|h| from::<MF>(h, "fbas").nodes.into_iter().map(|n| n.pk)).collect();
        for pk in extra.union(&pks) {
            let drop = |f: &MF| match f.nodes.iter().position(|n| n.pk == *pk) {
                Some(x) => without_node(f, &[], x).0,
                None => f.clone(),
            };
            let mut w = case.clone();
            w["classes"] = json!(classes.iter().map(&drop).collect::<Vec<_>>());
            for (k, h) in hist.iter().enumerate() {
                w["history"][k]["fbas"] = json!(drop(&from(h, "fbas")));
            }
            out.push(w);
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        (60_000, 4_000_000)
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["fbas_analyzer library (JSON input and output, standard form, shrinking, analysis)"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["entropy (hash map keys): seeded, other for every network of the history", "the reusing tool's cache: a map in the harness"]
    }
    fn rule(&self) -> &'static str {
        "seeded histories of 1-9 descriptions of 1-3 similar networks (nodes and validators permuted, irrelevant and unknown nodes added), every one with other hash entropy; non-trivial: at least one description has the standard form of an earlier one and there are quorums; distinct: by hash of the standard forms"
    }
}

// ------------------------------------------------------------------------------------------- P16
fn conv_q(q: &MQ) -> QuorumSet {
    QuorumSet { threshold: q.t as usize, validators: q.v.clone(), inner_quorum_sets: q.i.iter().map(conv_q).collect() }
}
fn gen_q(r: &mut Rng, n: usize, depth: usize) -> MQ {
    let k = if r.chance(1, 12) { r.range(5, 20).min(n) } else { r.range(0, 4) };
    let mut v: Vec<usize> = r.sample(n, k);
    if r.chance(1, 10) && !v.is_empty() {
        v.push(v[0]);
    }
    let i: Vec<MQ> = if depth > 0 && r.chance(1, 3) { let many = if r.chance(1, 12) { 12 } else { 2 };
        (0..r.range(1, many)).map(|_| gen_q(r, n, depth - 1)).collect()
    } else {
        vec![]
    };
    let m = v.len() + i.len();
    let t = if r.chance(1, 10) { r.below(m + 3) } else { r.range(1, m.max(1)) };
    MQ { t: t as u64, v, i }
}
/// What the model knows about the value being edited. Validator indices >= the number of nodes are
/// IDs that don't exist (yet).
fn canon_sort(q: &MQ, n: usize) -> MQ {
    q.canonical(n)
}
fn bits(s: &Set) -> NodeIdSet {
    s.iter().copied().collect()
}

impl Family for Edits {
    fn gen(&self, seed: u64, _tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let start = if r.chance(1, 3) {
            MF::default()
        } else {
            let sh = Shape { max_core: *r.pick(&[3, 5, 7]), duplicates: r.chance(1, 3), degenerate: r.chance(1, 3), metadata: false, huge: r.chance(1, 2) };
            gen_fbas(&mut r, &sh)
        };
        let mut n = start.n();
        let mut ops = vec![];
        for _ in 0..r.range(2, 14) {
            ops.push(match r.below(12) {
                0 | 1 | 2 => {
                    let q = gen_q(&mut r, n + 1, 2);
                    n += 1;
                    json!({"op": "add", "q": q})
                }
                3 | 4 | 5 if n > 0 => json!({"op": "swap", "x": r.below(n), "q": gen_q(&mut r, n, 2)}),
                6 => json!({"op": "json", "how": r.below(3)}),
                7 if r.chance(1, 4) && n > 0 => json!({"op": "rename", "x": r.below(n)}),
                7 => json!({"op": "clone"}),
                8 => {
                    let k = r.range(0, 6);
                    json!({"op": "quorum", "s": r.sample(n, k)})
                }
                9 => {
                    let k = r.range(0, n);
                    json!({"op": "shrink", "s": r.sample(n, k)})
                }
                10 => {
                    let k = r.range(0, n);
                    let keep = r.sample(n, k);
                    json!({"op": "groups", "orgs": (0..if r.chance(1, 8) { r.range(5, 24) } else { r.range(0, 4) }).map(|k| {
                    let m = if r.chance(1, 8) { r.range(4, 12).min(n) } else { r.range(0, 3) };
                    json!({"name": format!("o{}", k), "v": r.sample(n + 2, m)})
                }).collect::<Vec<_>>(), "keep": keep})
                }
                _ => json!({"op": "sat"}),
            });
        }
        json!({"entropy": r.next() >> 1, "start": start, "ops": ops, "probe": r.next() >> 1})
    }
    fn run(&self, case: &Value) -> Outcome {
        let case = case.clone();
        on_fresh_thread(get_u(&case, "entropy"), move || run_edits(&case))
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = drop_from_array(case, "ops", 1);
        for (g, _) in shrink_fbas(&from(case, "start"), &[]) {
            let mut w = case.clone();
            w["start"] = json!(g);
            out.push(w);
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        (150_000, 6_000_000)
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["fbas_analyzer library (FBAS values, quorum sets, JSON input and output, shrinking, groupings)"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["entropy (hash map keys): seeded per run"]
    }
    fn rule(&self) -> &'static str {
        "seeded start network x seeded history of 2-14 edits, copies, round trips through JSON and queries, judged against a plain list model after every step; non-trivial: at least two operations on a network that has nodes; distinct: by hash of operations and answers"
    }
}

fn run_edits(case: &Value) -> Outcome {
    let mut o = Outcome::default();
    let mut m: MF = from(case, "start");
    let mut fbas = match call0(|| build(&m, "json")) {
        Ok(f) => f,
        Err(e) => {
            o.fail("panic", format!("reading a network: {}", e));
            return o;
        }
    };
    let n0 = m.n();
    for x in m.nodes.iter_mut() {
        x.q = canon_sort(&x.q, n0);
    }
    // (value, model) pairs put aside; they must not change any more
    let mut aside: Vec<(Fbas, MF)> = vec![];
    let ops: Vec<Value> = from(case, "ops");
    let mut probe = Rng::new(get_u(case, "probe"));
    for (k, op) in ops.iter().enumerate() {
        let r = call0(|| step(&mut fbas, &mut m, op, &mut aside));
        let what = match r {
            Ok(Ok(s)) => {
                o.mix_trace(&s);
                check_value(&fbas, &m, &mut probe)
            }
            Ok(Err(e)) => Err(e),
            Err(p) => {
                o.fail("panic", format!("step {} ({}): {}", k, op, p));
                break;
            }
        };
        if let Err(e) = what {
            o.fail("value differs from its history", format!("step {} ({}): {}", k, op, e));
            break;
        }
        o.steps += 1;
    }
    if o.ok() {
        for (v, m) in &aside {
            if let Err(e) = check_value(v, m, &mut probe) {
                o.fail("a copy changed", e);
                break;
            }
        }
    }
    o.nontrivial = o.steps >= 2 && m.n() > 0;
    o
}
fn check_value(fbas: &Fbas, m: &MF, probe: &mut Rng) -> Result<(), String> {
    let r = call0(|| {
        let n = m.n();
        if fbas.number_of_nodes() != n || fbas.all_nodes() != (0..n).collect::<NodeIdSet>() {
            return Err(format!("number of nodes: {}, expected {}", fbas.number_of_nodes(), n));
        }
        for x in 0..n {
            let q = fbas.get_quorum_set(x).ok_or("a node is missing")?;
            if model_q(&q) != m.nodes[x].q {
                return Err(format!("node {} has quorum set {:?}, expected {:?}", x, model_q(&q), m.nodes[x].q));
            }
            if fbas.get_node_id(&m.nodes[x].pk) != Some(x) {
                return Err(format!("public key {} belongs to {:?}, expected {}", m.nodes[x].pk, fbas.get_node_id(&m.nodes[x].pk), x));
            }
        }
        if fbas.get_quorum_set(n).is_some() || fbas.get_node_id("no such node").is_some() {
            return Err("a node that does not exist".into());
        }
        // some random questions
        for _ in 0..3 {
            let s: Set = (0..n).filter(|_| probe.chance(2, 3)).collect();
            if fbas.is_quorum(&bits(&s)) != m.is_quorum(&s) {
                return Err(format!("is {:?} a quorum: {}, expected {}", s, fbas.is_quorum(&bits(&s)), m.is_quorum(&s)));
            }
            let gq = m.greatest_quorum(&s);
            if !gq.is_empty() && !fbas.is_quorum(&bits(&gq)) {
                return Err(format!("{:?} is not a quorum any more", gq));
            }
            if n > 0 {
                let x = probe.below(n);
                let q = fbas.get_quorum_set(x).unwrap();
                let want = m.nodes[x].q.satisfied(&|y| s.contains(&y));
                if q.is_quorum_slice(&bits(&s)) != want {
                    return Err(format!("does {:?} satisfy {:?}: {}, expected {}", s, m.nodes[x].q, !want, want));
                }
                let mut members = Set::new();
                m.nodes[x].q.members(&mut members);
                if q.contained_nodes() != bits(&members) || q.contains_duplicates() != m.nodes[x].q.has_duplicates() {
                    return Err(format!("nodes in {:?}: {:?}", m.nodes[x].q, q.contained_nodes()));
                }
                if members.len() <= 8 && small_enough(&m.nodes[x].q) {
                    let slices: Vec<Set> = q.to_quorum_slices().iter().map(|s| set_of(s.iter())).collect();
                    let ids: Vec<usize> = members.iter().copied().collect();
                    for mask in 0..1usize << ids.len() {
                        let sub: Set = ids.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, &x)| x).collect();
                        let sat = m.nodes[x].q.satisfied(&|y| sub.contains(&y));
                        if sat != slices.iter().any(|s| s.is_subset(&sub)) {
                            return Err(format!("quorum slices of {:?} are {}, but {:?} satisfies it: {}", m.nodes[x].q, fmt_sets(&slices), sub, sat));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}
/// Equality, order and hash values fit each other.
fn compare(a: &Fbas, b: &Fbas, same: bool) -> Result<(), String> {
    use std::hash::{Hash, Hasher};
    if (a == b) != same {
        return Err(format!("equal to an earlier version: {}, expected {}", a == b, same));
    }
    let o = a.cmp(b);
    if (o == std::cmp::Ordering::Equal) != same || b.cmp(a) != o.reverse() || a.partial_cmp(b) != Some(o) {
        return Err(format!("compared to an earlier version: {:?} and {:?}, equal: {}", o, b.cmp(a), same));
    }
    let h = |f: &Fbas| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        f.hash(&mut h);
        h.finish()
    };
    if same && h(a) != h(b) {
        return Err("equal networks with different hash values".into());
    }
    Ok(())
}
/// Thresholds that can be reached, few leaves: the slices can be listed.
fn small_enough(q: &MQ) -> bool {
    let m = q.v.len() + q.i.len();
    q.t >= 1 && q.t as usize <= m && m <= 6 && q.i.iter().all(small_enough)
}
fn step(fbas: &mut Fbas, m: &mut MF, op: &Value, aside: &mut Vec<(Fbas, MF)>) -> Result<String, String> {
    let n = m.n();
    let name = get_s(op, "op");
    match name {
        "add" => {
            let q: MQ = from(op, "q");
            let pk = format!("n{}", n);
            if m.nodes.iter().any(|x| x.pk == pk) {
                return Ok("skip".into());
            }
            let id = fbas.add_generic_node(conv_q(&q));
            m.nodes.push(MNode { pk, q, isp: None, country: None });
            if id != n {
                return Err(format!("new node has ID {}, expected {}", id, n));
            }
        }
        "swap" => {
            let x = get_u(op, "x") as usize;
            if x >= n {
                return Ok("skip".into());
            }
            let q: MQ = from(op, "q");
            let old = fbas.swap_quorum_set(x, conv_q(&q));
            let want = std::mem::replace(&mut m.nodes[x].q, q);
            if model_q(&old) != want {
                return Err(format!("replaced quorum set: {:?}, expected {:?}", model_q(&old), want));
            }
        }
        "json" => {
            let s = match get_u(op, "how") {
                0 => fbas.to_json_string(),
                1 => fbas.to_json_string_pretty(),
                _ => format!("{}", fbas),
            };
            let raw: Vec<Value> = serde_json::from_str(&s).map_err(|e| format!("bad JSON: {}", e))?;
            let mut shown = vec![];
            for (x, v) in raw.iter().enumerate() {
                if n <= x || get_s(v, "publicKey") != m.nodes[x].pk {
                    return Err(format!("serialized as {}", s));
                }
                shown.push(v["quorumSet"].clone());
            }
            if raw.len() != n {
                return Err(format!("serialized as {}", s));
            }
            let again = Fbas::from_json_str(&s);
            for x in m.nodes.iter_mut() {
                x.q = canon_sort(&x.q, n);
            }
            *fbas = again;
        }
        "rename" => {
            // the same network but for the name of one node
            let x = get_u(op, "x") as usize;
            if x >= n {
                return Ok("skip".into());
            }
            aside.push((fbas.clone(), m.clone()));
            let mut r = m.clone();
            r.nodes[x].pk = format!("renamed {} {}", x, aside.len());
            for y in r.nodes.iter_mut() {
                y.q = canon_sort(&y.q, n);
            }
            *fbas = build(&r, "json");
            *m = r;
            for (v, vm) in aside.iter() {
                let same = vm.nodes.len() == n && vm.nodes.iter().zip(&m.nodes).all(|(a, b)| a.pk == b.pk && a.q == b.q);
                compare(v, fbas, same)?;
            }
        }
        "clone" => {
            let c = fbas.clone();
            if c != *fbas {
                return Err("a copy is not equal".into());
            }
            for (v, vm) in aside.iter() {
                let same = vm.nodes.len() == n && vm.nodes.iter().zip(&m.nodes).all(|(a, b)| a.pk == b.pk && a.q == b.q);
                compare(v, fbas, same)?;
            }
            // go on with the copy, keep the original
            let orig = std::mem::replace(fbas, c);
            aside.push((orig, m.clone()));
        }
        "quorum" => {
            let s: Set = from::<Vec<usize>>(op, "s").into_iter().filter(|&x| x < n).collect();
            if fbas.is_quorum(&bits(&s)) != m.is_quorum(&s) {
                return Err(format!("is {:?} a quorum: expected {}", s, m.is_quorum(&s)));
            }
        }
        "sat" => {
            let all: Set = (0..n).collect();
            let want = m.greatest_quorum(&all);
            let sat = set_of(fbas.satisfiable_nodes().iter());
            let unsat = set_of(fbas.unsatisfiable_nodes().iter());
            if sat != want || unsat != all.difference(&want).copied().collect::<Set>() {
                return Err(format!("satisfiable nodes: {:?}, expected {:?}", sat, want));
            }
        }
        "shrink" => {
            let s: Set = from::<Vec<usize>>(op, "s").into_iter().filter(|&x| x < n).collect();
            let (small, mgr) = fbas.shrunken(bits(&s));
            let keep: Vec<usize> = s.iter().copied().collect();
            let map = |q: &MQ| -> MQ {
                fn go(q: &MQ, keep: &[usize]) -> MQ {
                    let mut v: Vec<usize> = q.v.iter().filter_map(|x| keep.iter().position(|k| k == x)).collect();
                    v.sort_unstable();
                    let mut i: Vec<MQ> = q.i.iter().map(|q| go(q, keep)).filter(|q| *q != MQ::default()).collect();
                    i.sort();
                    MQ { t: q.t, v, i }
                }
                go(q, &keep)
            };
            if small.number_of_nodes() != keep.len() {
                return Err(format!("shrunken to {} nodes instead of {}", small.number_of_nodes(), keep.len()));
            }
            for (new, &old) in keep.iter().enumerate() {
                if small.get_node_id(&m.nodes[old].pk) != Some(new) {
                    return Err(format!("shrunken: {} has ID {:?} instead of {}", m.nodes[old].pk, small.get_node_id(&m.nodes[old].pk), new));
                }
                let got = canon_sort(&model_q(&small.get_quorum_set(new).unwrap()), keep.len());
                if got != map(&m.nodes[old].q) {
                    return Err(format!("shrunken: node {} has {:?}, expected {:?}", old, got, map(&m.nodes[old].q)));
                }
            }
            let un = mgr.unshrink_sets(&[small.all_nodes(), small.satisfiable_nodes()]);
            if set_of(un[0].iter()) != s || mgr.shrink_set(&bits(&s)) != small.all_nodes() || mgr.unshrink_set(&small.all_nodes()) != bits(&s) {
                return Err("shrunken IDs are not mapped back".into());
            }
            // going from one shrunken ID space to another one
            let half: Set = s.iter().copied().step_by(2).collect();
            let (_, mgr2) = fbas.shrunken(bits(&half));
            let moved = mgr2.reshrink_sets(&[mgr.shrink_set(&bits(&half))], &mgr);
            if !same_sets(&[set_of(moved[0].iter())], &[(0..half.len()).collect::<Set>()]) {
                return Err(format!("IDs after shrinking twice: {:?}", moved));
            }
        }
        "groups" => {
            let orgs: Vec<MOrg> = from(op, "orgs");
            let js: Vec<Value> = orgs
                .iter()
                .map(|g| json!({"name": g.name, "validators": g.v.iter().map(|&x| m.name(x)).collect::<Vec<_>>()}))
                .collect();
            let g = Groupings::organizations_from_json_str(&json!(js).to_string(), fbas);
            if g.number_of_groupings() != orgs.len() {
                return Err(format!("{} groupings instead of {}", g.number_of_groupings(), orgs.len()));
            }
            let back: Vec<Value> = serde_json::from_str(&serde_json::to_string(&g).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            for (k, org) in orgs.iter().enumerate() {
                let known: Vec<String> = org.v.iter().filter(|&&x| x < n).map(|&x| m.name(x)).collect();
                let got: Vec<String> = serde_json::from_value(back[k]["validators"].clone()).map_err(|e| e.to_string())?;
                if get_s(&back[k], "name") != org.name || got != known {
                    return Err(format!("grouping {} serialized as {}", org.name, back[k]));
                }
                if g.get_by_name(&org.name).is_none() {
                    return Err(format!("grouping {} is not found by name", org.name));
                }
            }
            if g.get_by_name("no such organization").is_some() {
                return Err("found a grouping that does not exist".into());
            }
            // the groups of a part of the network
            let keep: Set = from::<Vec<usize>>(op, "keep").into_iter().filter(|&x| x < n).collect();
            let (small, mgr) = fbas.shrunken(bits(&keep));
            let sg = Groupings::shrunken(&g, &mgr, &small);
            let part: Vec<Value> = serde_json::from_str(&serde_json::to_string(&sg).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            if sg.number_of_groupings() != orgs.len() || part.len() != orgs.len() {
                return Err(format!("{} groupings in a part of the network instead of {}", sg.number_of_groupings(), orgs.len()));
            }
            for (k, org) in orgs.iter().enumerate() {
                let mut known: Vec<String> = org.v.iter().filter(|&&x| x < n && keep.contains(&x)).map(|&x| m.name(x)).collect();
                let mut got: Vec<String> = serde_json::from_value(part[k]["validators"].clone()).map_err(|e| e.to_string())?;
                known.sort();
                got.sort();
                if get_s(&part[k], "name") != org.name || got != known {
                    return Err(format!("grouping {} in the part {:?} serialized as {}", org.name, keep, part[k]));
                }
            }
            // only meaningful if nobody belongs to two groups
            let mut seen = Set::new();
            if orgs.iter().flat_map(|o| o.v.iter()).all(|&x| seen.insert(x)) {
                let org_of = |x: usize| orgs.iter().position(|o| o.v.contains(&x));
                for x in 0..n {
                    if g.get_by_member(x).is_some() != org_of(x).is_some() {
                        return Err(format!("node {} has a grouping: {}", x, g.get_by_member(x).is_some()));
                    }
                    if let Some(k) = org_of(x) {
                        if g.get_by_member(x) != g.get_by_name(&orgs[k].name) {
                            return Err(format!("node {} is in the wrong grouping", x));
                        }
                    }
                    for y in 0..n {
                        let together = x == y || (org_of(x).is_some() && org_of(x) == org_of(y));
                        if (g.merge_node(x) == g.merge_node(y)) != together {
                            return Err(format!("nodes {} and {} merged: {}, expected {}", x, y, !together, together));
                        }
                    }
                }
            }
        }
        _ => return Err(format!("harness: unknown step {}", name)),
    }
    Ok(format!("{}:{}", name, m.n()))
}

//! Simulated runs of the simulation tools: graph_generator, then qsc_simulator on the graph, then
//! fbas_analyzer on the network, each as a process with its own faults, connected by files and streams.
use crate::bulk::copy_dir;
use crate::cli;
use crate::common::*;
use crate::model::*;
use crate::proc::*;
use crate::qsc::{gen_links, judge_graph_based, threshold_67};
use crate::rng::Rng;
use fbas_analyzer::simulation::Graph;
use serde_json::{json, Value};
use std::io::Write;

pub struct Pipe;

const G: &str = "graph.bz2";
const POLICIES: &[(&str, &str)] = &[
    ("all", "AllNeighbors"),
    ("rank", "GlobalRank"),
    ("tier", "HigherTierNeighbors"),
    ("sym", "SymmetryEnforcingHigherTierNeighbors"),
    ("fame", "FameWeightedRandom"),
    ("random", "Random"),
    ("ideal", "Ideal"),
    ("safe", "SuperSafe"),
];

fn bz2(data: &[u8]) -> Vec<u8> {
    let mut c = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::Default);
    c.write_all(data).expect("harness: bz2");
    c.finish().expect("harness: bz2")
}
/// Decompresses one complete stream; `None` if it is cut short or broken.
fn bunzip2(data: &[u8]) -> Option<Vec<u8>> {
    let mut d = bzip2::Decompress::new(false);
    let mut out = Vec::with_capacity(1 << 20);
    loop {
        let k = d.total_in() as usize;
        let before = (d.total_in(), d.total_out());
        match d.decompress_vec(&data[k..], &mut out) {
            Ok(bzip2::Status::StreamEnd) => return if d.total_in() as usize == data.len() { Some(out) } else { None },
            Ok(_) if before != (d.total_in(), d.total_out()) => out.reserve(1 << 16),
            _ => return None,
        }
    }
}
/// The AS-relationship format: `a|b|0` links both, `a|b|-1` lets b link to a.
fn parse(text: &str) -> Option<Vec<Vec<usize>>> {
    let mut l: Vec<Set> = vec![];
    for line in text.lines() {
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let p: Vec<&str> = line.split('|').collect();
        if p.len() < 3 {
            return None;
        }
        let (a, b): (usize, usize) = (p[0].parse().ok()?, p[1].parse().ok()?);
        if l.len() <= a.max(b) {
            l.resize(a.max(b) + 1, Set::new());
        }
        match p[2] {
            "0" => {
                l[a].insert(b);
                l[b].insert(a);
            }
            "-1" => {
                l[b].insert(a);
            }
            _ => return None,
        }
    }
    Some(l.into_iter().map(|s| s.into_iter().collect()).collect())
}
/// A graph as somebody's AS-relationship file.
fn as_rel(l: &[Vec<usize>], r: &mut Rng) -> String {
    let mut lines = vec![];
    for (a, x) in l.iter().enumerate() {
        for &b in x {
            let mutual = l[b].contains(&a);
            if mutual && a > b && r.chance(4, 5) {
                continue;
            }
            let (x, y) = if mutual && r.chance(1, 2) { (a, b) } else { (b, a) };
            let tail = *r.pick(&["", "", "|bgp", "|mlp|x"]);
            lines.push(format!("{}|{}|{}{}", x, y, if mutual { 0 } else { -1 }, tail));
        }
    }
    r.shuffle(&mut lines);
    for _ in 0..r.below(3) {
        let k = r.below(lines.len() + 1);
        lines.insert(k, r.pick(&["", "# 1|2|0", "#", "# source: |||"]).to_string());
    }
    if r.chance(1, 12) {
        let k = r.below(lines.len() + 1);
        lines.insert(k, r.pick(&["1|2", "1|2|5", "a|1|0", "1|-2|0", "0||0", " ", "1,2,0", "1|2|"]).to_string());
    }
    let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if r.chance(2, 3) {
        s += nl;
    }
    s
}
/// The same links between nodes with larger numbers, as in real data.
fn sparse(l: &[Vec<usize>], r: &mut Rng) -> Vec<Vec<usize>> {
    let n = r.range(l.len(), 500).max(l.len());
    let mut at = r.sample(n, l.len());
    if r.chance(1, 2) {
        at.sort_unstable();
        at[0] = 0;
    }
    let mut out = vec![vec![]; at.iter().max().unwrap() + 1];
    for (a, x) in l.iter().enumerate() {
        out[at[a]] = x.iter().map(|&b| at[b]).collect();
    }
    out
}
fn gen_faults(r: &mut Rng, inputs: &[&str], outputs: &[&str]) -> Vec<Value> {
    let mut faults = vec![];
    for _ in 0..r.below(3) {
        let at = r.below(1000);
        let dir = r.below(4);
        faults.push(if dir < 2 && !inputs.is_empty() {
            let f = *r.pick(inputs);
            match r.below(3) {
                0 => json!({"cls": "read", "path": f, "at": at, "kind": "errno", "arg": libc::EINTR}),
                _ => json!({"cls": "read", "path": f, "at": at, "kind": "short", "arg": r.range(1, 30), "sticky": r.chance(2, 3)}),
            }
        } else if dir == 3 {
            match r.below(3) {
                0 => json!({"cls": "rand", "path": "*", "at": r.below(300), "kind": "errno", "arg": libc::EINTR}),
                1 => json!({"cls": "rand", "path": "*", "at": r.below(300), "kind": "short", "arg": r.range(1, 15)}),
                _ => json!({"cls": "clock", "path": "*", "at": at, "kind": "jump", "arg": *r.pick(&[-3_600_000_000_000i64, 86_400_000_000_000])}),
            }
        } else {
            let f = *r.pick(outputs);
            match r.below(3) {
                0 => json!({"cls": "write", "path": f, "at": at, "kind": "errno", "arg": libc::EINTR}),
                _ => json!({"cls": "write", "path": f, "at": at, "kind": "short", "arg": r.range(1, 20), "sticky": r.chance(1, 2)}),
            }
        });
    }
    let at = r.below(1000);
    match r.below(9) {
        0 if !inputs.is_empty() => faults.push(json!({"cls": "read", "path": *r.pick(inputs), "at": at, "kind": "errno", "arg": libc::EIO, "sticky": r.chance(1, 2)})),
        1 | 2 => faults.push(json!({"cls": "write", "path": *r.pick(outputs), "at": at, "kind": "errno", "arg": *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE]), "sticky": r.chance(1, 2)})),
        3 => faults.push(match r.below(5) {
            0 => json!({"cls": "malloc", "path": "*", "at": at, "kind": "null"}),
            1 => json!({"cls": "open", "path": G, "at": at, "kind": "errno", "arg": *r.pick(&[libc::EACCES, libc::EMFILE])}),
            2 => json!({"cls": "rand", "path": "*", "at": r.below(300), "kind": "errno", "arg": libc::EIO}),
            3 => json!({"cls": "write", "path": *r.pick(outputs), "at": at, "kind": "torn", "arg": r.range(0, 200)}),
            _ => json!({"cls": "any", "path": "*", "at": at, "kind": "crash"}),
        }),
        _ => {}
    }
    faults
}

impl Family for Pipe {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let big = if tier == Tier::Thorough { 20 } else { 12 };
        if r.chance(1, 6) {
            // text form of a graph, without tools
            let mut links = gen_links(&mut r, big);
            if r.chance(1, 12) {
                links = sparse(&links, &mut r);
            }
            return json!({"links": links, "comment": if r.chance(1, 2) { json!("x|y|z") } else { json!(null) }, "steps": []});
        }
        if r.chance(1, 2500) {
            // more text than one block of a bz2 file holds
            let (n, k) = (r.range(2800, 3200), 2 * r.range(30, 34));
            let fault = match r.below(3) {
                0 => json!([{"cls": "write", "path": G, "at": r.below(1000), "kind": "errno", "arg": libc::EINTR}]),
                1 => json!([{"cls": "write", "path": G, "at": r.below(1000), "kind": "errno", "arg": libc::ENOSPC}]),
                _ => json!([]),
            };
            return json!({"policy": "all", "gen": ["-o", G, "WattsStrogatz", n.to_string(), k.to_string(), "0.1"], "old": false, "stdin": false, "cut": 1000,
                "initial": 3, "grow": 0, "size": 0, "threshold": null, "relative": null, "analyze": false,
                "steps": [{"sched": gen_sched(&mut r, false), "faults": fault}, {"sched": gen_sched(&mut r, false), "faults": []}, {"sched": gen_sched(&mut r, false), "faults": []}]});
        }
        let policy = POLICIES[if r.chance(1, 4) { r.below(POLICIES.len()) } else { r.below(5) }].0;
        let graph = !matches!(policy, "random" | "ideal" | "safe");
        let stdin;
        // larger graphs, as there are in reality; growing them takes too long
        let large = graph && r.chance(1, 16);
        let big = if large { 220 } else { big };
        let mut c = json!({"policy": policy});
        let mut steps = vec![];
        let mut n;
        if graph && r.chance(1, 2) {
            let to_file = r.chance(2, 3);
            let mut args: Vec<String> = vec![];
            if to_file {
                args.extend(["-o".to_string(), G.to_string()]);
            }
            if r.chance(1, 2) {
                args.push("--dont-shuffle".into());
            }
            if r.chance(1, 8) {
                args.push("-v".into());
            }
            n = r.range(if large { 100 } else { 2 }, big);
            if r.chance(1, 2) {
                let m0 = r.range(1, n.min(5));
                args.extend(["BarabasiAlbert".into(), n.to_string(), m0.to_string(), r.range(1, m0).to_string()]);
            } else {
                let k = 2 * r.range(1, ((n - 1) / 2).clamp(1, 3));
                n = n.max(k + 1);
                args.extend(["WattsStrogatz".into(), n.to_string(), k.to_string(), r.pick(&["0", "0.1", "0.5", "1"]).to_string()]);
            }
            c["gen"] = json!(args);
            c["old"] = json!(to_file && r.chance(1, 4));
            stdin = !to_file && r.chance(1, 2);
            let out = if to_file { G } else { "stdout" };
            steps.push(json!({"sched": gen_sched(&mut r, false), "faults": gen_faults(&mut r, &[], &[out])}));
        } else if graph {
            let mut links = gen_links(&mut r, big.min(20));
            if large {
                links = sparse(&links, &mut r);
            }
            let text = as_rel(&links, &mut r);
            n = links.len();
            stdin = r.chance(1, 3);
            c["text"] = json!(text);
            c["form"] = json!(if stdin { "plain" } else { *r.pick(&["plain", "bz2", "bz2", "streams"]) });
            steps.push(json!({"sched": gen_sched(&mut r, false), "faults": []}));
        } else {
            n = r.range(0, 10);
            stdin = false;
            steps.push(json!({"sched": gen_sched(&mut r, false), "faults": []}));
        }
        c["stdin"] = json!(stdin);
        c["cut"] = json!(if graph && !stdin && r.chance(1, 8) { r.below(1000) as u64 } else { 1000 });
        if graph && !large && r.chance(1, 2) {
            c["initial"] = json!(0);
            c["grow"] = json!(0);
        } else {
            if r.chance(1, 6) && policy != "rank" {
                n += r.range(1, 4);
            }
            let n = r.range(0, n);
            let i = if large || r.chance(1, 2) { n } else { r.range(0, n) };
            c["initial"] = json!(i);
            c["grow"] = json!(n - i);
        }
        c["size"] = json!(r.range(0, 8));
        c["threshold"] = if r.chance(1, 2) { json!(null) } else { json!(r.range(1, 6)) };
        c["relative"] = if r.chance(1, 2) { json!(null) } else { json!(*r.pick(&[0.0, 0.25, 0.5, 0.51, 0.66, 0.75, 1.0])) };
        let ins: &[&str] = if stdin { &["stdin"] } else if graph { &[G] } else { &[] };
        steps.push(json!({"sched": gen_sched(&mut r, false), "faults": gen_faults(&mut r, ins, &["stdout"])}));
        steps.push(json!({"sched": gen_sched(&mut r, false), "faults": gen_faults(&mut r, &["stdin"], &["stdout"])}));
        c["analyze"] = json!(r.chance(1, 2));
        c["steps"] = json!(steps);
        c
    }
    fn run(&self, case: &Value) -> Outcome {
        let mut o = Outcome::default();
        if case.get("links").is_some() {
            text_form(case, &mut o);
        } else {
            exec(case, &mut o);
        }
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let mut out = vec![];
        if case.get("links").is_some() {
            let l: Vec<Vec<usize>> = from(case, "links");
            for a in 0..l.len() {
                for k in 0..l[a].len() {
                    let mut m = l.clone();
                    m[a].remove(k);
                    out.push(json!({"links": m, "comment": case["comment"], "steps": []}));
                }
            }
            return out;
        }
        let steps = case["steps"].as_array().unwrap();
        if steps.iter().any(|s| !get_b(s, "explicit")) {
            let mut o = Outcome::default();
            let done = exec(case, &mut o);
            let mut c = case.clone();
            for (k, s) in steps.iter().enumerate() {
                c["steps"][k]["explicit"] = json!(true);
                if let Some((ran, placed)) = done.get(k).and_then(|d| d.as_ref()) {
                    c["steps"][k] = explicit(s, ran, placed);
                }
            }
            return vec![c];
        }
        let mut set = |k: &str, v: Value| {
            if case.get(k).map_or(false, |x| *x != v) {
                let mut c = case.clone();
                c[k] = v;
                out.push(c);
            }
        };
        set("analyze", json!(false));
        set("old", json!(false));
        set("cut", json!(1000));
        set("threshold", json!(null));
        set("relative", json!(null));
        if case.get("form").is_some() {
            set("form", json!("plain"));
        }
        for k in ["initial", "grow", "size"] {
            let v = get_u(case, k);
            if v > 1 {
                set(k, json!(v - 1));
            }
        }
        if let Some(t) = case.get("text").and_then(|t| t.as_str()) {
            let l: Vec<&str> = t.lines().collect();
            for k in 0..l.len() {
                let mut m = l.clone();
                m.remove(k);
                set("text", json!(m.join("\n")));
            }
        }
        for (k, s) in steps.iter().enumerate() {
            for v in shrink_step(s) {
                let mut c = case.clone();
                c["steps"][k] = v;
                out.push(c);
            }
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        (20_000, 500_000)
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["the graph_generator, qsc_simulator and fbas_analyzer binaries, with the crate, bzip2, serde_json, rand and the Rust standard library"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["clocks, entropy, allocation failure and every file and stream operation: libdst.so", "pipes: the next process starts when the previous one has ended"]
    }
    fn rule(&self) -> &'static str {
        "seeded graph sources x policies x sizes x faults in each process; non-trivial: at least three nodes or a fault that fired; distinct: by hash of all processes' traces"
    }
    fn is_proc(&self) -> bool {
        true
    }
}

/// Graph to text and back.
fn text_form(case: &Value, o: &mut Outcome) {
    let links: Vec<Vec<usize>> = from(case, "links");
    let comment: Option<String> = from(case, "comment");
    let dir = Dir::new();
    let path = dir.work().join(G);
    let sorted = |l: &[Vec<usize>]| -> Vec<Set> { l.iter().map(|x| set_of(x.iter().copied())).collect() };
    let used = links.iter().enumerate().flat_map(|(a, x)| x.iter().map(move |&b| a.max(b) + 1)).max().unwrap_or(0);
    let r = call0(|| {
        let g = Graph::new(links.clone());
        let text = Graph::to_as_rel_string(&g, comment.as_deref()).map_err(|e| e.to_string())?;
        Graph::to_as_rel_file(&g, &path, comment.as_deref()).map_err(|e| e.to_string())?;
        let a = Graph::from_as_rel_string(&text);
        let b = Graph::from_as_rel_file(&path);
        // what a graph says through the simulation's eyes: in-degrees and the links in use
        Ok::<_, String>((text, a, b))
    });
    let (text, a, b) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(m)) | Err(m) => return o.fail("text form", format!("{:?}: {}", links, m)),
    };
    if a != b {
        return o.fail("text form", format!("{:?} reads differently from a file: {:?} and {:?}", links, a, b));
    }
    match std::fs::read(&path).ok().and_then(|d| bunzip2(&d)) {
        Some(t) if t == text.as_bytes() => {}
        t => return o.fail("text form", format!("{:?}: the file holds {:?}", links, t.map(|t| String::from_utf8_lossy(&t).into_owned()))),
    }
    let got = outlinks(&a);
    let want = &sorted(&links)[..used];
    if got != want {
        let mut rev = vec![Set::new(); used];
        for (x, s) in want.iter().enumerate() {
            for &y in s {
                if !want[y].contains(&x) {
                    rev[y].insert(x);
                } else {
                    rev[x].insert(y);
                }
            }
        }
        if got == rev {
            o.known.push("directed-links-reversed".into());
        } else {
            return o.fail("text form", format!("{:?} written as {:?} and read back as {:?}", want, text, got));
        }
    }
    o.mix_trace(&text);
    o.steps = links.len() as u64;
    o.count("graphs written and read back", 1);
    o.nontrivial = used >= 3;
}
/// A graph's links, observed by letting every node trust its neighbours.
fn outlinks(g: &Graph) -> Vec<Set> {
    use fbas_analyzer::simulation::qsc::AllNeighborsQsc;
    use fbas_analyzer::simulation::QuorumSetConfigurator;
    let mut f = fbas_analyzer::Fbas::new_generic_unconfigured(g.number_of_nodes());
    let q = AllNeighborsQsc::new_67p(g.clone());
    (0..g.number_of_nodes())
        .map(|x| {
            q.configure(x, &mut f);
            let mut s = set_of(f.get_quorum_set(x).unwrap_or_default().validators);
            s.remove(&x);
            s
        })
        .collect()
}

type Done = Vec<Option<(Ran, Vec<Fault>)>>;
/// Runs a tool, first without faults if they have to be placed. Returns both runs.
fn staged(dir: &Dir, tool: &str, args: &[String], stdin: Option<&[u8]>, step: &Value, o: &mut Outcome) -> (Option<Ran>, Ran, Vec<Fault>) {
    let mut cfg = cfg_of(&step["sched"]);
    let faults = step["faults"].as_array().cloned().unwrap_or_default();
    let mut placed = vec![];
    let mut dry = None;
    if !faults.is_empty() {
        let copy = Dir::new();
        copy_dir(&dir.work(), &copy.work());
        let d = run_tool(&copy, tool, args, stdin, &cfg);
        account(o, &d);
        for f in &faults {
            placed.extend(place(f, &d));
        }
        dry = Some(d);
    }
    cfg.faults = placed.clone();
    let ran = run_tool(dir, tool, args, stdin, &cfg);
    account(o, &ran);
    count_end(o, &ran);
    (dry, ran, placed)
}
/// Whether a fault hit that may make a run fail.
fn hard(ran: &Ran, placed: &[Fault]) -> bool {
    ran.evs.iter().any(|e| match e {
        Ev::Fault { id, kind, .. } => match kind.as_str() {
            "short" | "jump" => false,
            "errno" => placed.get(*id).map_or(true, |f| f.arg != libc::EINTR as i64),
            _ => true,
        },
        _ => false,
    })
}
fn basics(tool: &str, args: &[String], ran: &Ran, placed: &[Fault], o: &mut Outcome) {
    if let Some(s) = ran.stuck() {
        o.fail("stuck", ctx(tool, args, ran, &s));
    }
    let null = placed.iter().any(|f| f.kind == "null");
    if ran.signalled() && !(ran.code == Some(-libc::SIGABRT) && null) {
        o.fail("killed by a signal", ctx(tool, args, ran, ""));
    }
}
fn ctx(tool: &str, args: &[String], ran: &Ran, m: &str) -> String {
    format!("{} {}; {} (exit {:?} {}; stderr: {})", tool, args.join(" "), m, ran.code, ran.why, tail_err(ran))
}

fn exec(case: &Value, o: &mut Outcome) -> Done {
    let mut done: Done = vec![None, None, None];
    let steps = case["steps"].as_array().unwrap();
    let dir = Dir::new();
    let policy = get_s(case, "policy");
    let graph = !matches!(policy, "random" | "ideal" | "safe");
    let stdin = get_b(case, "stdin");
    // ---- where the graph comes from
    let mut text: Option<String> = None; // the complete graph
    let mut input: Option<Vec<u8>> = None; // what the simulator is given
    let mut whole = true; // nothing is missing from it
    let mut plain = true;
    if case.get("gen").is_some() {
        let args: Vec<String> = from(case, "gen");
        let to_file = args.iter().any(|a| a == "-o");
        let garbage: Vec<u8> = (0..3000u32).map(|x| (x * 7 % 251) as u8 | 0x80).collect();
        if get_b(case, "old") {
            dir.put(G, &garbage);
        }
        let clean = Dir::new();
        let cfg = cfg_of(&steps[0]["sched"]);
        let d = run_tool(&clean, "graph_generator", &args, None, &cfg);
        account(o, &d);
        basics("graph_generator", &args, &d, &[], o);
        let out = |dir: &Dir, ran: &Ran| if to_file { dir.get(G) } else { Some(ran.out.clone()) };
        let unpack = |b: Vec<u8>| -> Option<String> { String::from_utf8(if to_file { bunzip2(&b)? } else { b }).ok() };
        let t = out(&clean, &d).and_then(unpack);
        let verdict = if !d.ok() { Err("failed without a reason".to_string()) } else { judge_graph(&args, t.as_deref()) };
        if let Err(m) = verdict {
            o.fail("wrong graph", ctx("graph_generator", &args, &d, &m));
            done[0] = Some((d, vec![]));
            return done;
        }
        let (_, ran, placed) = staged(&dir, "graph_generator", &args, None, &steps[0], o);
        basics("graph_generator", &args, &ran, &placed, o);
        let mine = out(&dir, &ran);
        // other random numbers are drawn when a request for them is interrupted
        let redrawn = ran.evs.iter().any(|e| matches!(e, Ev::Fault { id, .. } if placed.get(*id).map_or(false, |f| f.cls == "rand")));
        let other = mine.clone().and_then(unpack);
        let complete = other == t || (redrawn && judge_graph(&args, other.as_deref()).is_ok());
        if ran.ok() && !complete {
            o.fail("wrong graph with exit 0", ctx("graph_generator", &args, &ran, &format!("{:?} instead of {:?}", other, t)));
        }
        text = if complete { other } else { t.clone() };
        if !ran.ok() && !hard(&ran, &placed) {
            o.fail("failed without a reason", ctx("graph_generator", &args, &ran, ""));
        }
        o.count(if ran.ok() { "graphs generated" } else { "failures of the generator" }, 1);
        whole = complete;
        let crashed = !ran.ok();
        done[0] = Some((ran, placed));
        if !o.ok() {
            return done;
        }
        plain = !to_file;
        if plain && crashed {
            // an incomplete text looks like a smaller graph: nothing more to say
            return done;
        }
        input = mine;
    } else if graph {
        let t = get_s(case, "text").to_string();
        let b = t.as_bytes();
        input = Some(match get_s(case, "form") {
            "plain" => b.to_vec(),
            "bz2" => bz2(b),
            _ => {
                // several streams, as parallel compressors write them
                let k = t.char_indices().map(|x| x.0).filter(|k| *k > 0).nth(t.len() / 3).unwrap_or(0);
                let mut v = bz2(&b[..k]);
                v.extend(bz2(&b[k..]));
                v
            }
        });
        plain = get_s(case, "form") == "plain";
        text = Some(t);
    }
    let cut = get_u(case, "cut") as usize;
    if let (Some(b), true) = (&mut input, cut < 1000 && !plain) {
        let k = 1 + (b.len() - 1) * cut / 1000;
        if k < b.len() {
            b.truncate(k);
            whole = false;
            if get_s(case, "form") == "streams" {
                // cut off exactly between two streams it is complete by itself
                if bunzip2(b).is_some() {
                    return done;
                }
            }
            o.count("graph files cut short", 1);
        }
    }
    if graph && !plain && input.as_ref().map_or(true, |b| b.is_empty()) && case.get("gen").is_some() {
        // no file, or an empty one, which is a graph without nodes
        return done;
    }
    // ---- the simulator
    let links = match &text {
        Some(t) => parse(t),
        None => Some(vec![]),
    };
    let mut args: Vec<String> = vec![];
    let (i, g) = (get_u(case, "initial") as usize, get_u(case, "grow") as usize);
    if i > 0 {
        args.extend(["-i".to_string(), i.to_string()]);
    }
    if g > 0 {
        args.extend(["--grow-by".to_string(), g.to_string()]);
    }
    let pol = POLICIES.iter().find(|p| p.0 == policy).unwrap_or_else(|| panic!("harness: policy")).1;
    args.push(pol.into());
    let size = get_u(case, "size") as usize;
    let t: Option<usize> = if policy == "fame" { from(case, "threshold") } else { None };
    let rel: Option<f64> = from(case, "relative");
    if matches!(policy, "random" | "fame") {
        args.push(size.to_string());
    }
    if graph {
        args.push(if stdin { "-".into() } else { G.into() });
        if policy == "fame" {
            args.extend(t.map(|t| t.to_string()));
        } else {
            args.extend(rel.map(|x| x.to_string()));
        }
        if !stdin {
            dir.put(G, input.as_deref().unwrap_or(b""));
        }
    }
    let given = if stdin { input.as_deref() } else { None };
    let (dry, ran, placed) = staged(&dir, "qsc_simulator", &args, given, &steps[1], o);
    o.nontrivial = links.as_ref().map_or(false, |l| l.len() >= 3) || i + g >= 3 || ran.evs.iter().any(|e| matches!(e, Ev::Fault { .. }));
    let mut got = None;
    for r in dry.iter().chain(std::iter::once(&ran)) {
        let p: &[Fault] = if std::ptr::eq(r, &ran) { &placed } else { &[] };
        basics("qsc_simulator", &args, r, p, o);
        let cx = |m: &str| ctx("qsc_simulator", &args, r, m);
        let unusable = !whole || links.is_none();
        if !r.ok() {
            let small = policy == "rank" && links.as_ref().map_or(false, |l| i + g > l.len());
            if !hard(r, p) && !unusable && !small {
                o.fail("failed without a reason", cx(""));
            }
            o.count("failures of the simulator", 1);
            continue;
        }
        if unusable {
            o.fail("exit 0 despite an unusable graph", cx(&format!("{} bytes given", input.as_ref().map_or(0, |b| b.len()))));
            continue;
        }
        let links = links.as_ref().unwrap();
        let n = if i > 0 || g > 0 { i + g } else { links.len() };
        let f = match read_network(&r.out) {
            Ok(f) => f,
            Err(m) => {
                o.fail("bad network with exit 0", cx(&m));
                continue;
            }
        };
        if f.n() != n {
            o.fail("wrong network", cx(&format!("{} nodes instead of {}", f.n(), n)));
            continue;
        }
        if policy == "rank" && n > links.len() {
            // no rank is known of some nodes
            continue;
        }
        if let Some(m) = judge_network(policy, links, &f, size, t, rel, g) {
            o.fail("wrong network", cx(&m));
        }
        o.count(&format!("networks: {}", pol), 1);
        got = Some(f);
    }
    // what was printed before a failure to print is the beginning of the right output
    if let Some(d) = &dry {
        let only_writes = placed.iter().all(|f| f.cls == "write");
        if d.ok() && !ran.ok() && only_writes && !d.out.starts_with(&ran.out) {
            o.fail("wrong output before a failure", ctx("qsc_simulator", &args, &ran, &String::from_utf8_lossy(&ran.out)));
        }
    }
    let out = ran.out.clone();
    let ok = ran.ok();
    done[1] = Some((ran, placed));
    // ---- the analysis of what it printed
    if !o.ok() || !ok || !get_b(case, "analyze") {
        return done;
    }
    let f = match got {
        Some(f) if f.n() <= 12 => f,
        _ => return done,
    };
    if let Some(x) = cli::analyze_all(f, &dir, &out, &steps[2], o) {
        done[2] = Some(x);
        o.count("networks analyzed", 1);
    }
    done
}
/// Checks a generated graph's structure. Node IDs may be shuffled.
fn judge_graph(args: &[String], text: Option<&str>) -> Result<(), String> {
    let text = text.ok_or("no readable graph")?;
    let shuffled = !args.iter().any(|a| a == "--dont-shuffle");
    let l = parse(text).ok_or_else(|| format!("bad graph: {:?}", text))?;
    let k = args.iter().position(|a| a == "BarabasiAlbert" || a == "WattsStrogatz").unwrap_or_else(|| panic!("harness: args"));
    let num = |j: usize| args[k + j].parse::<usize>().unwrap_or(0);
    let n = num(1);
    let (ba, beta0) = (args[k] == "BarabasiAlbert", args[k + 3] == "0");
    let edges: usize = l.iter().map(|x| x.len()).sum::<usize>() / 2;
    let bad = |m: &str| Err(format!("{}: {:?}", m, l));
    if l.len() > n || l.iter().enumerate().any(|(a, x)| x.contains(&a) || x.iter().any(|&b| !l[b].contains(&a))) {
        return bad("not a simple undirected graph of the given size");
    }
    let lines = text.lines().filter(|x| !x.is_empty() && !x.starts_with('#')).count();
    if lines != edges {
        return bad("links are listed more than once");
    }
    if !text.starts_with('#') {
        return bad("no comment at the beginning");
    }
    if ba {
        let (m0, m) = (num(2), num(3));
        if edges != m0 * (m0 - 1) / 2 + (n - m0) * m {
            return bad("wrong number of links");
        }
        if n > 1 && l.len() != n {
            return bad("wrong number of nodes");
        }
        if !shuffled {
            for x in 0..l.len() {
                let older = l[x].iter().filter(|&&y| y < x).count();
                if older != if x < m0 { x } else { m } {
                    return bad("not grown in order");
                }
            }
        }
        if l.iter().any(|x| x.len() < m.min(m0 - 1)) {
            return bad("a node with too few links");
        }
        // (there is next to no chance that a random order is an order of growth)
        if shuffled && n >= 60 && m >= 2 && (0..n).all(|x| l[x].iter().filter(|&&y| y < x).count() == if x < m0 { x } else { m }) {
            return bad("nodes were not shuffled");
        }
    } else {
        let kk = num(2);
        if edges != n * kk / 2 {
            return bad("wrong number of links");
        }
        let ring = |a: usize, b: usize| {
            let d = (a + n - b) % n;
            d.min(n - d) <= kk / 2
        };
        // links between nodes that would be neighbors on the ring: few by chance, nearly all if little is rewired
        let on_ring = l.iter().enumerate().map(|(a, x)| x.iter().filter(|&&b| ring(a, b)).count()).sum::<usize>() / 2;
        let by_chance = edges as f64 * kk as f64 / (n - 1).max(1) as f64;
        if shuffled && n >= 60 && kk <= 80 && on_ring as f64 > by_chance + 7.0 * by_chance.sqrt() + 7.0 {
            return bad("nodes were not shuffled");
        }
        if !shuffled && args[k + 3] == "0.1" && n >= 60 && (on_ring as f64) < edges as f64 * 0.5 {
            return bad("nodes were shuffled, or nearly all links rewired");
        }
        if beta0 {
            if l.iter().any(|x| x.len() != kk) || (!shuffled && l.iter().enumerate().any(|(a, x)| x.iter().any(|&b| !ring(a, b)))) {
                return bad("not a ring lattice");
            }
        }
    }
    Ok(())
}
/// The network printed by the simulator. Validators that are no nodes get numbers beyond the nodes.
fn read_network(out: &[u8]) -> Result<MF, String> {
    let v: Value = serde_json::from_slice(out).map_err(|e| format!("not JSON: {}", e))?;
    let a = v.as_array().ok_or("no list of nodes")?;
    let names: Vec<String> = a.iter().map(|n| n["publicKey"].as_str().unwrap_or("").to_string()).collect();
    let mut f = MF::default();
    for (k, n) in a.iter().enumerate() {
        if names[k].is_empty() || names[..k].contains(&names[k]) {
            return Err(format!("node {} has no name of its own", k));
        }
        let q = &n["quorumSet"];
        let mut mq = MQ { t: q["threshold"].as_u64().ok_or("no threshold")?, v: vec![], i: vec![] };
        let mut beyond = vec![];
        for x in q["validators"].as_array().ok_or("no validators")? {
            let x = x.as_str().ok_or("bad validator")?;
            match names.iter().position(|m| m == x) {
                Some(p) => mq.v.push(p),
                None => {
                    if beyond.contains(&x) {
                        return Err(format!("{} twice", x));
                    }
                    beyond.push(x);
                }
            }
        }
        for b in beyond {
            let id = b.rsplit('#').next().and_then(|d| d.parse::<usize>().ok()).filter(|d| *d >= names.len());
            mq.v.push(id.ok_or_else(|| format!("unknown validator {}", b))?);
        }
        if q["innerQuorumSets"].as_array().map_or(false, |i| !i.is_empty()) {
            return Err("inner quorum sets".into());
        }
        f.nodes.push(MNode { pk: names[k].clone(), q: mq, isp: None, country: None });
    }
    Ok(f)
}
fn judge_network(policy: &str, links: &[Vec<usize>], f: &MF, size: usize, t: Option<usize>, rel: Option<f64>, grow: usize) -> Option<String> {
    let n = f.n();
    let sorted: Vec<MQ> = f
        .nodes
        .iter()
        .map(|x| {
            let mut q = x.q.clone();
            q.v.sort_unstable();
            q
        })
        .collect();
    match policy {
        "ideal" | "safe" => {
            let want = MQ { t: if policy == "ideal" { threshold_67(n) } else { n as u64 }, v: (0..n).collect(), i: vec![] };
            sorted.iter().find(|q| **q != want).map(|q| format!("{:?} instead of {:?}", q, want))
        }
        "random" | "fame" => {
            let (ins, has) = if policy == "fame" {
                let mut ins = vec![0; links.len()];
                links.iter().flatten().for_each(|&b| ins[b] += 1);
                (ins, true)
            } else {
                (vec![], false)
            };
            for (x, q) in sorted.iter().enumerate() {
                let want = size.min(n).max(1);
                let u = set_of(q.v.iter().copied());
                if q.v.len() != want || u.len() != want || !u.contains(&x) || u.iter().any(|&y| y >= n) {
                    return Some(format!("node {} has {:?} for size {}", x, q, size));
                }
                let thr = t.map_or(threshold_67(size.min(n)), |t| t as u64);
                if size >= 2 && q.t != thr {
                    return Some(format!("node {} has threshold {} instead of {}", x, q.t, thr));
                }
                if has && grow == 0 {
                    let weight = |y: usize| ins.get(y).copied().unwrap_or(1);
                    let positive = (0..n).filter(|&y| y != x && weight(y) > 0).count();
                    let zero = u.iter().filter(|&&y| y != x && weight(y) == 0).count();
                    if zero > (want - 1).saturating_sub(positive) {
                        return Some(format!("node {} chose {:?} with weights {:?}", x, q, ins));
                    }
                }
            }
            None
        }
        _ => {
            let g = Graph::new(links.to_vec());
            judge_graph_based(policy, links, &g, rel, &[], &sorted, n)
        }
    }
}

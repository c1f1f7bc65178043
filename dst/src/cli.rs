//! Simulated runs of the fbas_analyzer command-line tool.
use crate::bulk::{copy_dir, merge_set, merge_sets, model_groups};
use crate::common::*;
use crate::gen::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::sess::stats;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Cli;

const NODES: &str = "nodes.json";
const ORGS: &str = "orgs.json";
const NAMES: &[&str] = &[
    "nodes_total", "nodes_total_merged", "symmetric_clusters", "minimal_quorums", "has_quorum_intersection",
    "nonintersecting_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier",
    "symmetric_clusters_analysis_duration", "minimal_quorums_analysis_duration", "has_quorum_intersection_analysis_duration",
    "minimal_blocking_sets_analysis_duration", "minimal_splitting_sets_analysis_duration",
];

/// The network as stellarbeat would describe it, with fields that do not matter here.
pub fn noisy_json(f: &MF, noise: u64) -> String {
    let mut v: Value = serde_json::from_str(&f.json()).unwrap();
    if noise == 0 {
        return serde_json::to_string(&v).unwrap();
    }
    let mut r = Rng::new(noise);
    for n in v.as_array_mut().unwrap() {
        let m = n.as_object_mut().unwrap();
        for (k, x) in [
            ("active", json!(r.chance(1, 2))),
            ("ip", json!("10.0.0.1")),
            ("name", json!("\u{1F600} \"quoted\\ \n[{")),
            ("index", json!(0.25)),
            ("statistics", json!({"active24HoursPercentage": 1e-3, "validators": ["x"], "threshold": 3, "deep": [[[{}], null]]})),
            ("isp_", json!("no")),
            ("homeDomain", Value::Null),
        ] {
            if r.chance(1, 2) {
                m.insert(k.into(), x);
            }
        }
        if r.chance(1, 2) {
            m["quorumSet"].as_object_mut().unwrap().insert("hashKey".into(), json!("h+/="));
        }
        if r.chance(1, 3) && !m.contains_key("isp") {
            m.insert("isp".into(), Value::Null);
        }
        if let Some(g) = m.get_mut("geoData") {
            g.as_object_mut().unwrap().insert("countryCode".into(), json!("XX"));
            g.as_object_mut().unwrap().insert("latitude".into(), json!(-12.5));
        }
        if r.chance(1, 4) && m["quorumSet"]["innerQuorumSets"].is_null() {
            m["quorumSet"].as_object_mut().unwrap().insert("innerQuorumSets".into(), json!([]));
        }
    }
    let s = if r.chance(1, 2) { serde_json::to_string_pretty(&v).unwrap() } else { serde_json::to_string(&v).unwrap() };
    if r.chance(1, 3) {
        // escape what need not be escaped
        s.chars().map(|c| if c.is_ascii() { c.to_string() } else { let mut b = [0; 2]; c.encode_utf16(&mut b).iter().map(|u| format!("\\u{:04x}", u)).collect() }).collect()
    } else {
        s
    }
}

impl Family for Cli {
    fn gen(&self, seed: u64, tier: Tier) -> Value {
        let mut r = Rng::new(seed);
        let big = tier == Tier::Thorough && r.chance(1, 3);
        let sh = Shape { max_core: r.range(1, if big { 10 } else { 8 }), duplicates: r.chance(1, 4), degenerate: r.chance(1, 5), metadata: r.chance(1, 2), huge: false };
        let mut f = MF::default();
        let mut flat = None;
        if r.chance(1, 12) {
            let (g, c) = gen_flat_small(&mut r, 60, 150);
            f = g;
            flat = Some(c);
        }
        for _ in 0..if flat.is_none() { 20 } else { 0 } {
            f = gen_fbas(&mut r, &sh);
            if f.n() <= 18 && f.truth(12).is_some() {
                break;
            }
            f = MF::default();
        }
        let mut args: Vec<String> = vec![];
        let flag = |r: &mut Rng, args: &mut Vec<String>, p: u64, s: &[&str]| {
            if r.chance(p, 10) {
                args.push(r.pick(s).to_string());
            }
        };
        let all = r.chance(1, 2);
        if all {
            flag(&mut r, &mut args, 10, &["-a", "--all"]);
        }
        if !all || r.chance(1, 4) {
            flag(&mut r, &mut args, 5, &["-q", "--minimal-quorums"]);
            flag(&mut r, &mut args, 5, &["-b", "--minimal-blocking-sets"]);
            flag(&mut r, &mut args, 5, &["-s", "--minimal-splitting-sets"]);
        }
        flag(&mut r, &mut args, 3, &["-d", "--describe"]);
        flag(&mut r, &mut args, 3, &["-p", "--pretty"]);
        flag(&mut r, &mut args, 5, &["--results-only"]);
        flag(&mut r, &mut args, 3, &["--alternative-quorum-intersection-check"]);
        flag(&mut r, &mut args, 1, &["--dont-check-quorum-intersection"]);
        flag(&mut r, &mut args, 3, &["--merge-by-org"]);
        flag(&mut r, &mut args, 2, &["--merge-by-isp"]);
        flag(&mut r, &mut args, 2, &["--merge-by-country"]);
        flag(&mut r, &mut args, 1, &["-v", "-vv", "-vvv"]);
        let orgs = gen_orgs(&mut r, &f);
        let stdin = r.chance(1, 2);
        let src = if stdin { "stdin" } else { NODES };
        let at = r.below(1000);
        let mut faults = vec![];
        let mut cut = 1000;
        for _ in 0..r.below(3) {
            let f = *r.pick(&[src, src, ORGS]);
            let at = r.below(1000);
            faults.push(match r.below(7) {
                0 | 1 => json!({"cls": "read", "path": f, "at": at, "kind": "short", "arg": r.range(1, 30), "sticky": r.chance(2, 3)}),
                2 => json!({"cls": "read", "path": f, "at": at, "kind": "errno", "arg": libc::EINTR}),
                3 => json!({"cls": "write", "path": "stdout", "at": at, "kind": "short", "arg": r.range(1, 20), "sticky": r.chance(1, 2)}),
                4 => json!({"cls": "write", "path": "stdout", "at": at, "kind": "errno", "arg": libc::EINTR}),
                _ => json!({"cls": "clock", "path": "*", "at": at, "kind": "jump", "arg": *r.pick(&[-3_600_000_000_000i64, -400_000_000_000_000_000, 86_400_000_000_000])}),
            });
        }
        match r.below(10) {
            0 => cut = r.below(1000),
            1 => faults.push(json!({"cls": "read", "path": *r.pick(&[src, src, ORGS]), "at": at, "kind": "errno", "arg": libc::EIO})),
            2 => faults.push(json!({"cls": "write", "path": "stdout", "at": at, "kind": "errno", "arg": *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE]), "sticky": r.chance(1, 2)})),
            3 => faults.push(match r.below(3) {
                0 => json!({"cls": "malloc", "path": "*", "at": at, "kind": "null"}),
                1 => json!({"cls": "open", "path": *r.pick(&[NODES, ORGS]), "at": at, "kind": "errno", "arg": libc::EACCES}),
                _ => json!({"cls": "any", "path": "*", "at": at, "kind": "crash"}),
            }),
            _ => {}
        }
        json!({"fbas": f, "flat": flat, "orgs": orgs, "args": args, "stdin": stdin, "cut": cut, "noise": if r.chance(1, 2) { r.next() >> 1 } else { 0 },
            "steps": [{"sched": gen_sched(&mut r, false), "faults": faults}]})
    }
    fn run(&self, case: &Value) -> Outcome {
        let mut o = Outcome::default();
        self.exec(case, &mut o);
        o
    }
    fn shrink(&self, case: &Value) -> Vec<Value> {
        let step = &case["steps"][0];
        if !get_b(step, "explicit") {
            let mut o = Outcome::default();
            let (ran, placed) = self.exec(case, &mut o);
            let mut c = case.clone();
            c["steps"][0] = explicit(step, &ran, &placed);
            return vec![c];
        }
        let mut out = drop_from_array(case, "args", 0);
        for v in shrink_step(step) {
            let mut c = case.clone();
            c["steps"][0] = v;
            out.push(c);
        }
        for (k, v) in [("noise", json!(0)), ("stdin", json!(false))] {
            if case[k] != v {
                let mut c = case.clone();
                c[k] = v;
                out.push(c);
            }
        }
        let f: MF = from(case, "fbas");
        let orgs: Vec<MOrg> = from(case, "orgs");
        let some = if case["flat"].is_null() { 150 } else { 0 };
        for (g, os) in shrink_fbas(&f, &orgs).into_iter().take(some) {
            let mut c = case.clone();
            c["fbas"] = json!(g);
            c["orgs"] = json!(os);
            out.push(c);
        }
        out
    }
    fn budget(&self) -> (u64, u64) {
        (50_000, 500_000)
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["the fbas_analyzer binary, with the crate, serde_json and the Rust standard library"]
    }
    fn stub(&self) -> Vec<&'static str> {
        vec!["clocks, entropy, allocation failure and every file and stream operation: libdst.so"]
    }
    fn rule(&self) -> &'static str {
        "distinct traces of runs on networks with at least one quorum or with a fault that fired"
    }
    fn is_proc(&self) -> bool {
        true
    }
}

/// Results by name, with the text that follows, in order and whether they are finished; and all other lines.
fn results(text: &str) -> (Vec<(String, String, bool)>, Vec<String>) {
    let mut other = vec![];
    let mut out: Vec<(String, String, bool)> = vec![];
    let ends = text.ends_with('\n');
    let lines: Vec<&str> = text.lines().collect();
    for (k, line) in lines.iter().enumerate() {
        let done = ends || k + 1 < lines.len();
        if let Some(n) = NAMES.iter().find(|n| line.starts_with(&format!("{}: ", n))) {
            out.push((n.to_string(), line[n.len() + 2..].to_string(), done));
        } else if let Some(l) = out.last_mut() {
            // pretty-printed values go on over several lines
            if l.0 == "symmetric_clusters" && serde_json::from_str::<Value>(&l.1).is_err() {
                l.1.push('\n');
                l.1.push_str(line);
                l.2 = done;
            } else {
                other.push(line.to_string());
            }
        } else {
            other.push(line.to_string());
        }
    }
    (out, other)
}
/// Whether the remarks between the results agree with them. Their wording may differ.
fn remark(w: &Want, line: &str) -> Result<(), String> {
    let num = line.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).and_then(|x| x.parse::<usize>().ok());
    let count = |what: &str, n: usize| match num {
        Some(k) if line.contains(what) && line.contains("We found") && k != n => Err(format!("{:?}, but there are {}", line, n)),
        _ => Ok(()),
    };
    if line.contains("All quorums intersect") && !w.t.intersection || line.contains("quorums don't intersect") && w.t.intersection {
        return Err(format!("{:?}", line));
    }
    if w.groups.is_none() {
        count("minimal quorums", w.t.mq.len())?;
        count("minimal blocking sets", w.t.mbs.len())?;
        count("minimal splitting sets", w.t.mss.len())?;
        if line.contains("distinct nodes involved") && num.map_or(false, |k| k != w.t.top_tier.len()) {
            return Err(format!("{:?}, but there are {}", line, w.t.top_tier.len()));
        }
    }
    Ok(())
}

struct Want {
    f: MF,
    t: Truth,
    groups: Option<Vec<(String, Vec<usize>)>>,
    describe: bool,
    pretty: bool,
}
impl Want {
    fn name(&self, x: usize) -> String {
        match self.groups.as_ref().and_then(|g| g.iter().find(|(_, v)| v.contains(&x))) {
            Some((n, _)) => n.clone(),
            None => self.f.name(x),
        }
    }
    fn merged(&self, sets: &[Set]) -> Vec<Set> {
        match &self.groups {
            Some(g) => merge_sets(g, sets),
            None => sets.to_vec(),
        }
    }
    /// A list as printed, in a form that does not depend on order or on which member stands for a group.
    fn set_text(&self, s: &Set) -> Vec<String> {
        let mut v: Vec<String> = s.iter().map(|&x| if self.pretty { self.name(x) } else { x.to_string() }).collect();
        v.sort();
        v
    }
    fn list(&self, v: &Value) -> Result<Vec<String>, String> {
        let a = v.as_array().ok_or_else(|| format!("no list: {}", v))?;
        let mut out = vec![];
        for x in a {
            out.push(match x {
                Value::String(s) if self.pretty => s.clone(),
                Value::Number(n) if !self.pretty => {
                    let id = n.as_u64().unwrap_or(u64::MAX) as usize;
                    if id >= self.f.n() {
                        return Err(format!("no node: {}", v));
                    }
                    let one: Set = [id].into_iter().collect();
                    let m = match &self.groups {
                        Some(g) => merge_set(g, &one),
                        None => one,
                    };
                    m.iter().next().unwrap().to_string()
                }
                _ => return Err(format!("no node: {}", x)),
            });
        }
        out.sort();
        Ok(out)
    }
    fn sets(&self, text: &str, want: &[Set], alt: Option<&[Set]>) -> Result<(), String> {
        let v: Value = serde_json::from_str(text).map_err(|e| format!("{}: {}", e, text))?;
        if self.describe {
            let ok = |sets: &[Set]| -> bool {
                let involved: Set = sets.iter().flatten().copied().collect();
                let ((a, b, c), h) = stats(sets);
                let m = v[2][2].as_f64().unwrap_or(-1.0);
                v[0] == json!(sets.len()) && v[1] == json!(involved.len()) && v[2][0] == json!(a) && v[2][1] == json!(b)
                    && (m - c).abs() < 1e-9 * (1.0 + c) && v[3] == json!(h) && v.as_array().map_or(0, |a| a.len()) == 4
            };
            return if ok(want) || alt.map_or(false, ok) { Ok(()) } else { Err(format!("{} for {}", text, fmt_sets(want))) };
        }
        let mut got = vec![];
        for s in v.as_array().ok_or("no list of lists")? {
            got.push(self.list(s)?);
        }
        got.sort();
        let norm = |w: &[Set]| {
            let mut e: Vec<Vec<String>> = w.iter().map(|s| self.set_text(s)).collect();
            e.sort();
            e
        };
        if got == norm(want) || alt.map_or(false, |a| got == norm(a)) {
            Ok(())
        } else {
            Err(format!("{} instead of {:?}", text, norm(want)))
        }
    }
    fn pretty_q(&self, q: &MQ) -> Value {
        let mut v: Vec<String> = q.v.iter().map(|&x| self.f.name(x)).collect();
        v.sort();
        let mut i: Vec<Value> = q.i.iter().map(|q| self.pretty_q(q)).collect();
        i.sort_by_key(|x| x.to_string());
        json!({"t": q.t, "v": v, "i": i})
    }
    fn read_q(&self, v: &Value) -> Value {
        let mut l: Vec<String> = v["validators"]
            .as_array()
            .cloned()
            .unwrap_or_default()
            .iter()
            .map(|x| match x {
                Value::String(s) => s.clone(),
                x => self.f.name(x.as_u64().unwrap_or(u64::MAX) as usize),
            })
            .collect();
        l.sort();
        let mut i: Vec<Value> = v["innerQuorumSets"].as_array().cloned().unwrap_or_default().iter().map(|q| self.read_q(q)).collect();
        i.sort_by_key(|x| x.to_string());
        json!({"t": v["threshold"], "v": l, "i": i})
    }
    fn one(&self, name: &str, text: &str) -> Result<(), String> {
        let t = &self.t;
        let none = [Set::new()];
        let plain = |x: String| if text == x { Ok(()) } else { Err(format!("{:?} instead of {:?}", text, x)) };
        match name {
            "nodes_total" => plain(self.f.n().to_string()),
            "nodes_total_merged" => {
                let all: Set = (0..self.f.n()).collect();
                match &self.groups {
                    Some(g) => plain(merge_set(g, &all).len().to_string()),
                    None => Err("printed without merging".into()),
                }
            }
            "has_quorum_intersection" => plain(t.intersection.to_string()),
            "minimal_quorums" => self.sets(text, &self.merged(&t.mq), None),
            "minimal_blocking_sets" => self.sets(text, &self.merged(&t.mbs), if t.mq.is_empty() { Some(&none) } else { None }),
            "minimal_splitting_sets" => self.sets(text, &self.merged(&t.mss), None),
            "top_tier" => {
                let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
                let m = match &self.groups {
                    Some(g) => merge_set(g, &t.top_tier),
                    None => t.top_tier.clone(),
                };
                let (a, b) = (self.list(&v)?, self.set_text(&m));
                if a == b {
                    Ok(())
                } else {
                    Err(format!("{:?} instead of {:?}", a, b))
                }
            }
            "nonintersecting_quorums" => {
                if t.intersection {
                    return Err(format!("{} although all quorums intersect", text));
                }
                if self.describe || (self.pretty && self.groups.is_some()) {
                    return Ok(());
                }
                let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
                let mut qs: Vec<Set> = vec![];
                for s in v.as_array().ok_or("no list of lists")? {
                    let mut q = Set::new();
                    for x in s.as_array().ok_or("no list of lists")? {
                        let id = match x {
                            Value::String(p) => self.f.nodes.iter().position(|n| n.pk == *p),
                            x => x.as_u64().map(|x| x as usize),
                        };
                        q.insert(id.ok_or_else(|| format!("no node: {}", x))?);
                    }
                    qs.push(q);
                }
                if qs.len() < 2 || !qs.iter().all(|q| self.f.is_quorum(q)) || !qs[0].is_disjoint(&qs[1]) {
                    return Err(format!("{} are not two disjoint quorums", text));
                }
                Ok(())
            }
            "symmetric_clusters" => {
                let v: Value = serde_json::from_str(text).map_err(|e| format!("{}: {}", e, text))?;
                if self.groups.is_some() {
                    // how quorum sets are merged is not part of this property
                    return Ok(());
                }
                let mut got: Vec<Value> = v.as_array().ok_or("no list")?.iter().map(|q| self.read_q(q)).collect();
                let mut want: Vec<Value> = t.symmetric.iter().map(|q| self.pretty_q(q)).collect();
                got.sort_by_key(|x| x.to_string());
                want.sort_by_key(|x| x.to_string());
                if got == want {
                    Ok(())
                } else {
                    Err(format!("{:?} instead of {:?}", got, want))
                }
            }
            _ => Ok(()),
        }
    }
}

/// Analyzes a network given as text on stdin. `None` if it is too large to judge.
pub fn analyze_all(f: MF, dir: &Dir, text: &[u8], step: &Value, o: &mut Outcome) -> Option<(Ran, Vec<Fault>)> {
    let t = f.truth(12)?;
    let w = Want { t, groups: None, describe: false, pretty: false, f };
    let args: Vec<String> = ["-a", "--results-only"].iter().map(|s| s.to_string()).collect();
    let want = ["nodes_total", "symmetric_clusters", "minimal_quorums", "has_quorum_intersection", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier"];
    let mut cfg = cfg_of(&step["sched"]);
    let dry = run_tool(dir, "fbas_analyzer", &args, Some(text), &cfg);
    account(o, &dry);
    Cli.judge(&w, &want, false, &args, &dry, &[], o);
    let placed: Vec<Fault> = step["faults"].as_array().into_iter().flatten().filter_map(|f| place(f, &dry)).collect();
    if placed.is_empty() || !o.ok() {
        return Some((dry, vec![]));
    }
    cfg.faults = placed.clone();
    let ran = run_tool(dir, "fbas_analyzer", &args, Some(text), &cfg);
    account(o, &ran);
    count_end(o, &ran);
    Cli.judge(&w, &want, false, &args, &ran, &placed, o);
    Some((ran, placed))
}
impl Cli {
    fn exec(&self, case: &Value, o: &mut Outcome) -> (Ran, Vec<Fault>) {
        let f: MF = from(case, "fbas");
        let orgs: Vec<MOrg> = from(case, "orgs");
        let mut args: Vec<String> = from(case, "args");
        let has = |s: &[&str]| args.iter().any(|a| s.contains(&a.as_str()));
        let stdin = get_b(case, "stdin");
        let all = has(&["-a", "--all"]);
        let (q, b, s) = (
            all || has(&["-q", "--minimal-quorums"]),
            all || has(&["-b", "--minimal-blocking-sets"]),
            all || has(&["-s", "--minimal-splitting-sets"]),
        );
        let alt = has(&["--alternative-quorum-intersection-check"]);
        let nocheck = has(&["--dont-check-quorum-intersection"]);
        let groups = if has(&["--merge-by-country"]) {
            if stdin { None } else { Some(model_groups("country", &f, &orgs)) }
        } else if has(&["--merge-by-isp"]) {
            if stdin { None } else { Some(model_groups("isp", &f, &orgs)) }
        } else if has(&["--merge-by-org"]) {
            Some(model_groups("org", &f, &orgs))
        } else {
            None
        };
        let t = truth_of(&f, &from(case, "flat")).unwrap_or_else(|| panic!("harness: network too large"));
        let w = Want { t, groups, describe: has(&["-d", "--describe"]), pretty: has(&["-p", "--pretty"]), f };
        if let Some(p) = args.iter().position(|a| a == "--merge-by-org") {
            args.insert(p + 1, ORGS.into());
        }
        let mut json = noisy_json(&w.f, get_u(case, "noise")).into_bytes();
        let cut = get_u(case, "cut");
        if cut < 1000 {
            let k = json.iter().rposition(|&c| c == b']').unwrap_or(0) * cut as usize / 1000;
            json.truncate(k);
        }
        let dir = Dir::new();
        if !stdin {
            dir.put(NODES, &json);
            args.push(NODES.into());
        }
        let v: Vec<Value> = orgs
            .iter()
            .map(|g| json!({"name": g.name, "validators": g.v.iter().map(|&x| w.f.name(x)).collect::<Vec<_>>()}))
            .collect();
        dir.put(ORGS, serde_json::to_string(&v).unwrap().as_bytes());
        let input = if stdin { Some(&json[..]) } else { None };
        // names that have to be printed, in order
        let mut want: Vec<&str> = vec!["nodes_total"];
        if w.groups.is_some() {
            want.push("nodes_total_merged");
        }
        want.push("symmetric_clusters");
        if q {
            want.push("minimal_quorums");
        }
        if !nocheck {
            want.push("has_quorum_intersection");
            if alt && !w.t.intersection && !w.t.mq.is_empty() {
                want.push("nonintersecting_quorums");
            }
        }
        if b {
            want.push("minimal_blocking_sets");
        }
        if s {
            want.push("minimal_splitting_sets");
        }
        if q || b || s {
            want.push("top_tier");
        }
        let step = &case["steps"][0];
        let mut cfg = cfg_of(&step["sched"]);
        let faults = step["faults"].as_array().cloned().unwrap_or_default();
        let mut placed = vec![];
        if faults.iter().any(|f| get_u(f, "nth") == 0) {
            let copy = Dir::new();
            copy_dir(&dir.work(), &copy.work());
            let dry = run_tool(&copy, "fbas_analyzer", &args, input, &cfg);
            account(o, &dry);
            self.judge(&w, &want, cut < 1000, &args, &dry, &[], o);
            if !o.ok() {
                return (dry, vec![]);
            }
            for f in &faults {
                placed.extend(place(f, &dry));
            }
        } else {
            for f in &faults {
                placed.extend(place(f, &Ran::default()));
            }
        }
        cfg.faults = placed.clone();
        let ran = run_tool(&dir, "fbas_analyzer", &args, input, &cfg);
        account(o, &ran);
        count_end(o, &ran);
        self.judge(&w, &want, cut < 1000, &args, &ran, &placed, o);
        o.nontrivial = !w.t.mq.is_empty() || ran.evs.iter().any(|e| matches!(e, Ev::Fault { .. }));
        if w.groups.is_some() {
            o.count("runs with merging", 1);
        }
        (ran, placed)
    }
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, w: &Want, want: &[&str], cut: bool, args: &[String], ran: &Ran, placed: &[Fault], o: &mut Outcome) {
        let text = String::from_utf8_lossy(&ran.out).into_owned();
        let ctx = |m: String| format!("fbas_analyzer {}; {} (exit {:?} {}; stderr: {})", args.join(" "), m, ran.code, ran.why, tail_err(ran));
        if let Some(s) = ran.stuck() {
            return o.fail("stuck", ctx(s));
        }
        let null = placed.iter().any(|f| f.kind == "null");
        if ran.signalled() && !(ran.code == Some(-libc::SIGABRT) && null) {
            return o.fail("killed by a signal", ctx(String::new()));
        }
        let hard = ran.signalled()
            || ran.evs.iter().any(|e| match e {
                Ev::Fault { id, kind, .. } => match kind.as_str() {
                    "short" | "jump" => false,
                    "errno" => placed.get(*id).map_or(true, |f| f.arg != libc::EINTR as i64),
                    _ => true,
                },
                _ => false,
            });
        let (got, other) = results(&text);
        if !cut {
            if let Some(m) = other.iter().find_map(|l| remark(w, l).err()) {
                return o.fail("wrong remark", ctx(m));
            }
        }
        // (the beginning of a result that was cut off is no remark)
        let other: Vec<&String> = other.iter().filter(|l| !l.trim().is_empty()).collect();
        if args.iter().any(|a| a == "--results-only") && !other.is_empty() && (ran.ok() || other.len() > 1) {
            return o.fail("more than results", ctx(format!("{:?}", other)));
        }
        // what is printed is right, whatever happens afterwards
        for (name, val, done) in &got {
            if !done {
                continue;
            }
            if let Some(x) = name.strip_suffix("_analysis_duration") {
                let d = val.strip_suffix('s').and_then(|s| s.parse::<f64>().ok());
                let ok = d.map_or(false, |d| {
                    let reads: Vec<u64> = ran
                        .evs
                        .iter()
                        .filter_map(|e| match e {
                            Ev::Clock { clk, ns, .. } if *clk != libc::CLOCK_REALTIME as u64 && *clk != libc::CLOCK_REALTIME_COARSE as u64 => Some(*ns),
                            _ => None,
                        })
                        .collect();
                    reads.iter().enumerate().any(|(i, a)| reads[i + 1..].iter().any(|b| (b.wrapping_sub(*a) as f64 / 1e9 - d).abs() <= 1e-9 * (1.0 + d.abs())))
                });
                if !ok {
                    return o.fail("wrong duration", ctx(format!("{}: {:?} is no time that passed", x, val)));
                }
                continue;
            }
            if cut && name != "nodes_total" {
                return o.fail("result for an unusable input", ctx(format!("{}: {}", name, val)));
            }
            if let Err(m) = w.one(name, val) {
                // multi-line values may be unfinished when the run failed
                if !(name == "symmetric_clusters" && !ran.ok() && got.last().map_or(false, |l| l.0 == *name)) {
                    return o.fail("wrong result", ctx(format!("{}: {}", name, m)));
                }
            }
        }
        let mut seen: BTreeMap<&str, u32> = BTreeMap::new();
        for (n, _, _) in &got {
            *seen.entry(n).or_insert(0) += 1;
        }
        let order: Vec<&str> = got.iter().map(|g| g.0.as_str()).filter(|n| !n.ends_with("_analysis_duration")).collect();
        if ran.ok() {
            if cut {
                return o.fail("exit 0 despite an unusable input", ctx(String::new()));
            }
            let mut a = order.clone();
            let mut b = want.to_vec();
            a.sort_unstable();
            b.sort_unstable();
            if a != b {
                return o.fail("wrong set of results with exit 0", ctx(format!("{:?} instead of {:?}", order, want)));
            }
            if got.iter().any(|g| !g.2) {
                return o.fail("unfinished output with exit 0", ctx(String::new()));
            }
            o.count("complete outputs", 1);
        } else {
            if !hard && !cut {
                return o.fail("failed without a reason", ctx(String::new()));
            }
            if let Some(n) = order.iter().find(|n| !want.contains(n)) {
                return o.fail("unwanted result", ctx(n.to_string()));
            }
            o.count("failures reported", 1);
        }
        if let Some((n, _)) = seen.iter().find(|(_, c)| **c > 1) {
            o.fail("result printed twice", ctx(n.to_string()));
        }
    }
}
